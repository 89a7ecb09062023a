// Access to internals of the moment elements and to the matrix functions; left out of the build when it does not compile.
#include <sstream>
#include <cstring>
#include <vector>
#include <string>
#include <stdexcept>
#include <memory>
#include "flame/base.h"
#include "flame/config.h"
#include "flame/moment.h"
#include "flame/moment_sup.h"
#include "flame/linear.h"
#include "flame/state/vector.h"
#include "flame/state/matrix.h"
#include "flame/rf_cavity.h"
#include "flame/chg_stripper.h"
#include "flame/util.h"


extern std::string fl_last_err;
#define last_err fl_last_err
#define TRY try {
#define CATCH(R) } catch(std::exception& e) { last_err = std::string(typeid(e).name())+": "+e.what(); return R; } \
                   catch(...) { last_err = "unknown exception"; return R; }

typedef MomentElementBase::value_t mat_t;
static void put(mat_t& M, const double* p) { M.resize(7,7); for(int i=0;i<7;i++) for(int j=0;j<7;j++) M(i,j)=p[7*i+j]; }
static void get(const mat_t& M, double* p) { for(int i=0;i<7;i++) for(int j=0;j<7;j++) p[7*i+j]=M(i,j); }

extern "C" {
// ---- moment elements
static MomentElementBase* ME(void* m, size_t i) { return dynamic_cast<MomentElementBase*>(((Machine*)m)->at(i)); }
int fl_elem_transfer(void* m, size_t i, size_t k, double* out) { TRY MomentElementBase* E=ME(m,i); if(!E||k>=E->transfer.size()) return 1; get(E->transfer[k], out); return 0; CATCH(2) }
int fl_elem_misalign(void* m, size_t i, void* s, size_t k, double* M, double* IM) { TRY MomentElementBase* E=ME(m,i); MomentState* S=dynamic_cast<MomentState*>((StateBase*)s); mat_t A(7,7),B(7,7); E->get_misalign(*S, S->real.at(k), A, B); get(A,M); get(B,IM); return 0; CATCH(2) }
int fl_get_flag(void* m, size_t i, void* c, const char* k, unsigned d, unsigned* out) { TRY *out = ME(m,i)->get_flag(*(Config*)c, k, d); return 0; CATCH(1) }
int fl_elem_cachesize(void* m, size_t i) { TRY MomentElementBase* E=ME(m,i); return E? (int)E->last_real_in.size() : -1; CATCH(-2) }
int fl_check_backward(void* m, size_t i, void* s) { TRY return ME(m,i)->check_backward(*dynamic_cast<MomentState*>((StateBase*)s)); CATCH(-1) }

double* fl_moment_elem(void* s, const char* nm, size_t k, size_t i, size_t j) {
    TRY
    MomentState* S=dynamic_cast<MomentState*>((StateBase*)s); std::string n(nm);
    if(n=="moment0") return &S->moment0.at(k)(i);
    if(n=="moment1") return &S->moment1.at(k)(i,j);
    if(n=="transmat") return &S->transmat.at(k)(i,j);
    if(n=="moment0_env") return &S->moment0_env(i);
    if(n=="moment0_rms") return &S->moment0_rms(i);
    if(n=="moment1_env") return &S->moment1_env(i,j);
    return 0;
    CATCH(0)
}

// ---- matrix functions
int fl_inverse(const double* in, double* out) { TRY mat_t A(7,7),B(7,7); put(A,in); inverse(B,A); get(B,out); return 0; CATCH(1) }
void fl_rotmat(const double* a, double* M) { mat_t A(7,7); put(A,M); RotMat(a[0],a[1],a[2],a[3],a[4],A); get(A,M); }
void fl_quad(double L, double K, unsigned ind, double* M) { mat_t A; put(A,M); GetQuadMatrix(L,K,ind,A); get(A,M); }
void fl_sext(const double* a, int thin, int kick, double* M) { mat_t A; put(A,M); GetSextMatrix(a[0],a[1],a[2],a[3],a[4],a[5],a[6],thin,kick,A); get(A,M); }
void fl_edge(const double* a, double* M) { mat_t A; put(A,M); GetEdgeMatrix(a[0],a[1],A); get(A,M); }
void fl_eedge(const double* a, double* M) { mat_t A; put(A,M); GetEEdgeMatrix(a[0],a[1],a[2],A); get(A,M); }
void fl_sol(const double* a, double* M) { mat_t A; put(A,M); GetSolMatrix(a[0],a[1],A); get(A,M); }
void fl_sbend(const double* a, double* M) { mat_t A; put(A,M); GetSBendMatrix(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],A); get(A,M); }
void fl_ebend(const double* a, double* M) { mat_t A; put(A,M); GetEBendMatrix(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],A); get(A,M); }
int fl_curvedata(void* c, unsigned n, double* scales, double* curves, int maxn, int* sizes) { TRY std::vector<double> S; std::vector<std::vector<double> > C; GetCurveData(*(Config*)c, n, S, C); for(size_t i=0;i<S.size();i++) { scales[i]=S[i]; sizes[i]=(int)C[i].size(); for(size_t j=0;j<C[i].size() && (int)j<maxn;j++) curves[i*maxn+j]=C[i][j]; } return (int)S.size(); CATCH(-1) }
}
