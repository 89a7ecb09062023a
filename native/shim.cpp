// C interface to the real FLAME library, used to replay counterexamples and for the bounded run-time contract checks.
#include <sstream>
#include <cstring>
#include <vector>
#include <string>
#include <stdexcept>
#include <memory>
#include "flame/base.h"
#include "flame/config.h"
#include "flame/moment.h"
#include "flame/moment_sup.h"
#include "flame/linear.h"
#include "flame/state/vector.h"
#include "flame/state/matrix.h"
#include "flame/rf_cavity.h"
#include "flame/chg_stripper.h"
#include "flame/util.h"

std::string fl_last_err;
#define last_err fl_last_err
static std::string last_str;
#define TRY try {
#define CATCH(R) } catch(std::exception& e) { last_err = std::string(typeid(e).name())+": "+e.what(); return R; } \
                   catch(...) { last_err = "unknown exception"; return R; }

struct Rec : public Observer {
    virtual ~Rec() {}
    static std::vector<size_t> seen;
    static std::vector<size_t> nexts;
    static std::vector<double> poss;
    virtual void view(const ElementVoid* e, const StateBase* s) { seen.push_back(e->index); nexts.push_back(s->next_elem); poss.push_back(s->pos); }
};
std::vector<size_t> Rec::seen, Rec::nexts;
std::vector<double> Rec::poss;


struct QuietLog : public Machine::Logger { virtual void log(const Machine::LogRecord&) {} };

extern "C" {
const char* fl_err() { return last_err.c_str(); }
int fl_init() { TRY registerLinear(); registerMoment(); boost::shared_ptr<Machine::Logger> q(new QuietLog); Machine::set_logger(q); return 0; CATCH(1) }
void fl_loglevel(int lvl) { Machine::log_detail = lvl; }
int fl_cleanup() { Machine::registeryCleanup(); return 0; }

// ---- config
void* fl_conf_new() { TRY return new Config(); CATCH(0) }
void* fl_conf_parse(const char* s, unsigned n) { TRY GLPSParser P; std::ostringstream pout; P.setPrinter(&pout); return P.parse_byte(s, n); CATCH(0) }
void* fl_conf_parse_path(const char* s, unsigned n, const char* path) { TRY GLPSParser P; std::ostringstream pout; P.setPrinter(&pout); return P.parse_byte(s, n, path); CATCH(0) }
void* fl_conf_parse_file(const char* f, int have_lat) { TRY GLPSParser P; std::ostringstream pout; P.setPrinter(&pout); return P.parse_file(f, have_lat); CATCH(0) }
void* fl_conf_parse_vars(const char* s, unsigned n, const char* var, double v) { TRY GLPSParser P; std::ostringstream pout; P.setPrinter(&pout); P.setVar(var, Config::value_t(v)); return P.parse_byte(s, n); CATCH(0) }
void* fl_conf_parse_conf(const char* s, unsigned n, void* c, const char* path, int how) {
    TRY
    GLPSParser P; std::ostringstream pout; P.setPrinter(&pout);
    if(c) for(Config::const_iterator it=((Config*)c)->begin(), e=((Config*)c)->end(); it!=e; ++it) P.setVar(it->first, it->second);
    Config* r = how==0 ? P.parse_byte(s, n, path) : how==1 ? P.parse_byte(std::string(s, n), path) : P.parse_file(s, how==3);
    last_str = pout.str();
    return r;
    CATCH(0)
}
const char* fl_laststr() { return last_str.c_str(); }
void* fl_conf_copy(void* c) { TRY return new Config(*(Config*)c); CATCH(0) }
void* fl_conf_scope(void* c) { TRY return new Config(((Config*)c)->new_scope()); CATCH(0) }
int fl_conf_assign(void* c, void* o) { TRY *(Config*)c = *(Config*)o; return 0; CATCH(1) }
int fl_conf_pushscope(void* c) { TRY ((Config*)c)->push_scope(); return 0; CATCH(1) }
int fl_conf_flatten(void* c) { TRY ((Config*)c)->flatten(); return 0; CATCH(1) }
void fl_conf_free(void* c) { delete (Config*)c; }
int fl_conf_setd(void* c, const char* k, double v) { TRY ((Config*)c)->set<double>(k, v); return 0; CATCH(1) }
int fl_conf_sets(void* c, const char* k, const char* v) { TRY ((Config*)c)->set<std::string>(k, v); return 0; CATCH(1) }
int fl_conf_setv(void* c, const char* k, const double* v, int n) { TRY ((Config*)c)->set<std::vector<double> >(k, std::vector<double>(v, v+n)); return 0; CATCH(1) }
int fl_conf_setcv(void* c, const char* k, void** v, int n) { TRY Config::vector_t x; for(int i=0;i<n;i++) x.push_back(*(Config*)v[i]); ((Config*)c)->set<Config::vector_t>(k, x); return 0; CATCH(1) }
int fl_conf_swaps(void* c, const char* k, const char* v) { TRY std::string x(v); ((Config*)c)->swap<std::string>(k, x); return 0; CATCH(1) }
int fl_conf_swapv(void* c, const char* k, const double* v, int n) { TRY std::vector<double> x(v, v+n); ((Config*)c)->swap<std::vector<double> >(k, x); return 0; CATCH(1) }
int fl_conf_has(void* c, const char* k) { TRY Config::value_t v; return ((Config*)c)->tryGetAny(k, v) ? 1+v.which() : 0; CATCH(-1) }
int fl_conf_swap(void* a, void* b) { TRY ((Config*)a)->swap(*(Config*)b); return 0; CATCH(1) }
int fl_conf_getd(void* c, const char* k, double* v) { TRY *v = ((Config*)c)->get<double>(k); return 0; CATCH(1) }
int fl_conf_getd_def(void* c, const char* k, double d, double* v) { TRY *v = ((Config*)c)->get<double>(k, d); return 0; CATCH(1) }
int fl_conf_trygetd(void* c, const char* k, double* v) { TRY return ((Config*)c)->tryGet<double>(k, *v); CATCH(-1) }
const char* fl_conf_gets(void* c, const char* k) { TRY last_str = ((Config*)c)->get<std::string>(k); return last_str.c_str(); CATCH(0) }
const char* fl_conf_gets_def(void* c, const char* k, const char* d) { TRY last_str = ((Config*)c)->get<std::string>(k, d); return last_str.c_str(); CATCH(0) }
int fl_conf_getv(void* c, const char* k, double* v, int n) { TRY const std::vector<double>& x = ((Config*)c)->get<std::vector<double> >(k); for(int i=0;i<n && i<(int)x.size();i++) v[i]=x[i]; return (int)x.size(); CATCH(-1) }
int fl_conf_getcv_n(void* c, const char* k) { TRY return (int)((Config*)c)->get<Config::vector_t>(k).size(); CATCH(-1) }
void* fl_conf_getcv(void* c, const char* k, int i) { TRY return new Config(((Config*)c)->get<Config::vector_t>(k).at(i)); CATCH(0) }
const char* fl_conf_keys(void* c) { TRY std::ostringstream s; for(Config::const_iterator it=((Config*)c)->begin(), e=((Config*)c)->end(); it!=e; ++it) s<<it->first<<"\n"; last_str=s.str(); return last_str.c_str(); CATCH(0) }
const char* fl_conf_print(void* c) { TRY std::ostringstream s; s<<*(Config*)c; last_str=s.str(); return last_str.c_str(); CATCH(0) }
const char* fl_conf_glps(void* c) { TRY std::ostringstream s; s.precision(17); GLPSPrint(s, *(Config*)c); last_str=s.str(); return last_str.c_str(); CATCH(0) }

// ---- machine
void* fl_machine(void* c) { TRY return new Machine(*(Config*)c); CATCH(0) }
void fl_machine_free(void* m) { delete (Machine*)m; }
int fl_machine_size(void* m) { return (int)((Machine*)m)->size(); }
const char* fl_machine_simtype(void* m) { return ((Machine*)m)->simtype().c_str(); }
void* fl_state(void* m, void* c) { TRY return c ? ((Machine*)m)->allocState(*(Config*)c) : ((Machine*)m)->allocState(); CATCH(0) }
void fl_state_free(void* s) { delete (StateBase*)s; }
void* fl_state_clone(void* s) { TRY return ((StateBase*)s)->clone(); CATCH(0) }
int fl_state_assign(void* s, void* o) { TRY ((StateBase*)s)->assign(*(StateBase*)o); return 0; CATCH(1) }
int fl_state_retreat(void* s, int v) { StateBase* S=(StateBase*)s; if(v>=0) S->retreat = v!=0; return S->retreat; }
size_t fl_state_next(void* s) { return ((StateBase*)s)->next_elem; }
void fl_state_setnext(void* s, size_t v) { ((StateBase*)s)->next_elem = v; }
void* fl_state_pyptr(void* s, int set, void* v) { StateBase* S=(StateBase*)s; if(set) S->pyptr = v; return S->pyptr; }
int fl_array(void* s, unsigned idx, const char** name, int* type, void** ptr, unsigned* ndim, size_t* dim, size_t* stride) {
    TRY
    StateBase::ArrayInfo I;
    if(!((StateBase*)s)->getArray(idx, I)) return 0;
    *name = I.name; *type = (int)I.type; *ptr = I.ptr; *ndim = I.ndim;
    for(unsigned k=0;k<I.ndim && k<3;k++) { dim[k]=I.dim[k]; stride[k]=I.stride[k]; }
    return 1;
    CATCH(-1)
}
int fl_propagate(void* m, void* s, size_t start, int max) { TRY ((Machine*)m)->propagate((StateBase*)s, start, max); return 0; CATCH(1) }
int fl_advance(void* m, void* s, size_t i) { TRY ((Machine*)m)->at(i)->advance(*(StateBase*)s); return 0; CATCH(1) }
int fl_reconfigure(void* m, size_t i, void* c) { TRY ((Machine*)m)->reconfigure(i, *(Config*)c); return 0; CATCH(1) }
void* fl_elem_conf(void* m, size_t i) { TRY return new Config(((Machine*)m)->at(i)->conf()); CATCH(0) }
const char* fl_elem_name(void* m, size_t i) { TRY return ((Machine*)m)->at(i)->name.c_str(); CATCH(0) }
const char* fl_elem_type(void* m, size_t i) { TRY return ((Machine*)m)->at(i)->type_name(); CATCH(0) }
long fl_elem_index(void* m, size_t i) { TRY return (long)((Machine*)m)->at(i)->index; CATCH(-1) }
double fl_elem_length(void* m, size_t i) { TRY return ((Machine*)m)->at(i)->length; CATCH(-1e300) }
int fl_elem_observe(void* m, size_t i, int on) { TRY ElementVoid* E=((Machine*)m)->at(i); if(on) E->set_observer(new Rec); return E->observer()!=0; CATCH(-1) }
int fl_seen(long* out, long* nx, double* pos, int n) { int k=(int)Rec::seen.size(); for(int i=0;i<k&&i<n;i++) { out[i]=(long)Rec::seen[i]; nx[i]=(long)Rec::nexts[i]; pos[i]=Rec::poss[i]; } return k; }
void fl_seen_clear() { Rec::seen.clear(); Rec::nexts.clear(); Rec::poss.clear(); }
const char* fl_trace(void* m, void* s, size_t start, int max) { TRY std::ostringstream o; ((Machine*)m)->set_trace(&o); try { ((Machine*)m)->propagate((StateBase*)s, start, max); } catch(...) { ((Machine*)m)->set_trace(0); throw; } ((Machine*)m)->set_trace(0); last_str=o.str(); return last_str.c_str(); CATCH(0) }
long fl_find(void* m, const char* name, size_t nth) { TRY Machine* M=(Machine*)m; ElementVoid* e = M->find(name, nth); if(!e) return -1; for(size_t i=0;i<M->size();i++) if((*M)[i]==e) return (long)i; return -2; CATCH(-3) }
int fl_range(void* m, const char* name, int bytype, long* out, int n) {
    TRY
    Machine* M=(Machine*)m; int k=0;
    std::pair<Machine::lookup_iterator, Machine::lookup_iterator> p = bytype==2 ? M->all_range() : bytype ? M->equal_range_type(name) : M->equal_range(name);
    for(;p.first!=p.second;++p.first,++k) if(k<n) { out[k]=-2; for(size_t i=0;i<M->size();i++) if((*M)[i]==*p.first) out[k]=(long)i; }
    return k;
    CATCH(-1)
}

// ---- moment state
int fl_calc_rms(void* s) { TRY dynamic_cast<MomentState*>((StateBase*)s)->calc_rms(); return 0; CATCH(1) }
int fl_recalc(void* s) { TRY dynamic_cast<MomentState*>((StateBase*)s)->recalc(); return 0; CATCH(1) }
double fl_brho(void* s, int k) { MomentState* S=dynamic_cast<MomentState*>((StateBase*)s); return k<0? S->ref.Brho() : S->real.at(k).Brho(); }
double* fl_refp(void* s) { return &dynamic_cast<MomentState*>((StateBase*)s)->ref.IonZ; }
double* fl_realp(void* s, int k) { return &dynamic_cast<MomentState*>((StateBase*)s)->real.at(k).IonZ; }
int fl_nreal(void* s) { return (int)dynamic_cast<MomentState*>((StateBase*)s)->real.size(); }
int fl_peq(const double* a, const double* b, int op) { Particle p, q; double* d=&p.IonZ; double* f=&q.IonZ; for(int i=0;i<12;i++) { d[i]=a[i]; f[i]=b[i]; } return op==0 ? p==q : op==1 ? p!=q : p<=q; }
}
