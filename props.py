"""Which machinery decides which property."""
import re

M = ['moment', 'base', 'moment_sup']

S = M + ['inst']

PROPS = {
    'P01': dict(tus=S, tasks=[('s_matrices', r'^(?!GetSext|MomentElementBase::get_misalign)'), ('s_optics', ''), ('s_curve', ''), ('s_gcurve', ''), ('s_init', r'load_storage<49>')],
                native=[('n_moment', 'forward', 1600, 20000), ('n_moment', 'curves', 400, 8000)]),
    'P02': dict(tus=M, tasks=[('s_state', r'^Particle::recalc'), ('s_advance', '')], native=[('n_moment', 'history', 1500, 20000), ('n_moment', 'lattice', 60, 1500)]),
    'P03': dict(tus=M, tasks=[('s_matrices', r'get_misalign|RotMat|lemmas'), ('s_optics', r'Quad|Solenoid|OrbTrim|SBend|EDipole')],
                native=[('n_misalign', 'misalign', 1500, 20000)]),
    'P04': dict(tus=S, tasks=[('s_state', r'Particle|MomentState::recalc')], native=[('n_state', 'kinematics', 3000, 60000)]),
    'P05': dict(tus=S, tasks=[('s_state', r'calc_rms')], native=[('n_state', 'rms', 2000, 40000)]),
    'P06': dict(tus=S + ['linear'], tasks=[('s_state', r'clone|assign'), ('s_linear', r'clone|State::assign')],
                native=[('n_state', 'copies', 800, 15000), ('n_state', 'independent', 400, 8000)]),
    'P07': dict(tus=S + ['linear'], tasks=[('s_state', r'getArray'), ('s_linear', r'getArray')], native=[('n_state', 'arrays', 1000, 20000)]),
    'P08': dict(tus=['linear', 'base'], tasks=[('s_linear', r'(?<!Array)(?<!clone)(?<!assign)$')], native=[('n_linear', 'linear', 2500, 40000)]),
    'P09': dict(tus=['base'], tasks=[('s_base', 'propagate')], native=[('n_linear', 'traverse', 3000, 40000), ('n_linear', 'split', 400, 8000)]),
    'P10': dict(tus=['moment', 'linear', 'base', 'moment_sup', 'rf_cavity', 'chg_stripper', 'inst'], tasks=[('s_reconf', ''), ('s_machine', 'reconfigure')],
                native=[('n_linear', 'reconf', 1500, 20000)]),
    'P11': dict(tus=['chg_stripper', 'moment', 'moment_sup', 'base'], tasks=[('s_state', r'^Particle::recalc'), ('s_strip', '')], native=[('n_strip', 'strip', 3000, 40000)]),
    'P12': dict(tus=['rf_cavity', 'util'] + M, tasks=[('s_state', r'^Particle::recalc'), ('s_cav', ''), ('s_cavmat', ''), ('s_rf', ''), ('s_table', '')], native=[('n_cav', 'cavity', 1200, 15000), ('n_cav', 'errors', 600, 6000)],
                bounded=['LoadCavityFile, numeric_table::read (reading of the cavity data files)']),
    'P13': dict(tus=['config', 'inst', 'util'], tasks=[('s_config', '')], native=[('n_config', 'config', 2000, 30000)]),
    'P14': dict(tus=['glps_ops', 'glps_parser', 'config', 'util', 'inst'], tasks=[('s_glps', ''), ('s_glact', ''), ('s_fill', '')],
                native=[('n_glps', 'parse', 8000, 120000), ('n_glps', 'errors', 1500, 15000), ('n_glps', 'select', 200, 2000)],
                bounded=['grammar (glps.y) and lexer (glps.l)', 'glps_call1: printing of values other than numbers', 'parse(), file(), dir()', 'GLPSPrint', 'GLPSParser::parse_file(name): opening of the file']),
    'P15': dict(tus=['base', 'inst'], tasks=[('s_machine', r'^(?!Machine::reconfigure)')], native=[('n_linear', 'lookup', 1500, 20000)]),
    'P16': dict(tus=M, tasks=[('s_matrices', r'GetSext'), ('s_sext', ''), ('s_state', r'^Particle::recalc')], native=[('n_moment', 'sext', 800, 12000)]),
    'P17': dict(tus=S, tasks=[('s_state', r'^Particle::recalc'), ('s_init', '')], native=[('n_state', 'initial', 2000, 30000)]),
}


def known_findings(path):
    out = {}
    for l in open(path):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def backend(o):
    d = str(o[3])
    if d.startswith('syntactic'):
        return 'syntactic equality of normal forms'
    if d.startswith('z3'):
        return 'z3'
    return 'normal-form prover' if o[3] else 'structural'
