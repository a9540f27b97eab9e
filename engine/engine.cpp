// symx: a bounded symbolic executor for LLVM-18 bitcode with Z3 as decision procedure.
// Every double is either an IEEE bit pattern (mode fp) or an exact real (mode real); integers are bit-vectors.
#include <csignal>
#include <sys/time.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringExtras.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <cmath>
#include <cstring>
#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128;

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- options / shared counters
static bool REALMODE = false;
static double DEADLINE = 0; static double BUDGET = 300; static int MAXPROC = 8; static unsigned QTIMEOUT = 40000000; // z3 resource limit per query (deterministic)
static u64 MAXINST = 400000000ull; // per path
static std::string OUTFILE; static bool VERBOSE = false; static bool CONCRETE = false; static std::string REPO = "/repo";
static int MAXFAIL = 12;

struct Shared {
  std::atomic<u64> paths, killed, forks, queries, unsat, sat, unknown, asserts, discharged, trivially, insts, failures, inconclusive, nanosSolver, divchecks, assumedNonzero, procs;
  std::atomic<int> active; std::atomic<int> stop; std::atomic<u64> peakPC;
  u8 fcov[1<<16];
  u8 icov[1<<21];
};
static Shared* SH;
static int OUTFD = -1;
static void emit(const std::string& s) { std::string t = s + "\n"; flock(OUTFD, LOCK_EX); (void)!write(OUTFD, t.data(), t.size()); flock(OUTFD, LOCK_UN); }
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if ((u8)c<32) o+=' '; else o+=c; } return o; }

// ---------------------------------------------------------------- Z3
static Z3_context Z; static Z3_sort SReal, SBool; static Z3_params SIMP;
static Z3_ast TRUE_, FALSE_;
static bool isNum(Z3_ast a) { return Z3_is_numeral_ast(Z, a); }
static Z3_ast simp(Z3_ast a) { return Z3_simplify(Z, a); }
static Z3_ast simpR(Z3_ast a) { return Z3_simplify_ex(Z, a, SIMP); }
static Z3_sort bvs(unsigned w) { static std::map<unsigned,Z3_sort> m; auto& s = m[w]; if (!s) s = Z3_mk_bv_sort(Z, w); return s; }
static Z3_ast mkBV(u64 v, unsigned w) { if (w==64) return Z3_mk_unsigned_int64(Z, v, bvs(64)); return Z3_mk_unsigned_int64(Z, w<64? (v & ((1ull<<w)-1)) : v, bvs(w)); }
static Z3_ast mkNot(Z3_ast a) { if (a==TRUE_) return FALSE_; if (a==FALSE_) return TRUE_; return Z3_mk_not(Z, a); }
static Z3_ast mkAnd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a,b}; return Z3_mk_and(Z, 2, x); }
static Z3_ast mkOr(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a,b}; return Z3_mk_or(Z, 2, x); }
static Z3_ast fresh(const char* n, Z3_sort s) { static u64 c = 0; std::string nm = std::string(n) + "!" + std::to_string(getpid()%100000) + "_" + std::to_string(c++); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), s); }
static std::string numStr(Z3_ast a) { return Z3_get_numeral_string(Z, a); }

struct EngErr { std::string msg; };
[[noreturn]] static void unsup(const std::string& m) { throw EngErr{m}; }

// ---------------------------------------------------------------- values
struct Rat { Z3_ast num; std::vector<std::pair<Z3_ast,int>> den; }; // num / prod(den_i^k)
struct Agg;
enum K : u8 { KUNDEF, KINT, KDBL, KBV, KREAL, KAGG };
struct Val { K k = KUNDEF; u8 pad=0; uint16_t w = 0; union { u64 u; double d; Z3_ast e; const Rat* r; const Agg* a; }; Val() : u(0) {} };
struct Agg { std::vector<Val> v; };
static inline u64 maskw(u64 v, unsigned w) { return w>=64 ? v : (v & ((1ull<<w)-1)); }
static inline Val VI(u64 v, unsigned w) { Val x; x.k = KINT; x.w = w; x.u = maskw(v,w); return x; }
static inline Val VD(double d) { Val x; x.k = KDBL; x.w = 64; x.d = d; return x; }
static inline Val VF(double d) { Val x; x.k = KDBL; x.w = 32; x.d = (double)(float)d; return x; }
static Val VBV(Z3_ast e, unsigned w) { // normalise numerals
  if (w <= 64 && isNum(e)) { uint64_t v; if (Z3_get_numeral_uint64(Z, e, &v)) return VI(v, w); }
  Val x; x.k = KBV; x.w = w; x.e = e; return x; }
static Val VAgg(std::vector<Val> v) { Agg* a = new Agg; a->v = std::move(v); Val x; x.k = KAGG; x.a = a; return x; }
static inline int64_t sx(u64 v, unsigned w) { return w>=64 ? (int64_t)v : (int64_t)(v << (64-w)) >> (64-w); }
static Z3_ast toBV(const Val& v) {
  switch (v.k) { case KINT: return mkBV(v.u, v.w); case KBV: return v.e;
    case KDBL: { if (v.w==32) { float f=(float)v.d; u32 b; memcpy(&b,&f,4); return mkBV(b,32);} u64 b; memcpy(&b,&v.d,8); return mkBV(b,64); }
    case KREAL: unsup("integer operation on a real-mode double"); default: unsup("toBV of undef/aggregate"); } }
// Booleans are 1-bit BVs; keep a side-table from BV1 ite(c,1,0) to c
static Val VBool(Z3_ast c) { c = simp(c); if (c==TRUE_) return VI(1,1); if (c==FALSE_) return VI(0,1);
  Z3_ast e = Z3_mk_ite(Z, c, mkBV(1,1), mkBV(0,1)); Val x; x.k=KBV; x.w=1; x.e=e; return x; }
static Z3_ast toBool(const Val& v) { if (v.k==KINT) return v.u ? TRUE_ : FALSE_; 
  if (Z3_get_ast_kind(Z, v.e)==Z3_APP_AST) { Z3_app a = Z3_to_app(Z, v.e); if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z,a))==Z3_OP_ITE) { Z3_ast t = Z3_get_app_arg(Z,a,1), f = Z3_get_app_arg(Z,a,2); uint64_t x,y;
    if (isNum(t)&&isNum(f)&&Z3_get_numeral_uint64(Z,t,&x)&&Z3_get_numeral_uint64(Z,f,&y)) { if (x==1&&y==0) return Z3_get_app_arg(Z,a,0); if (x==0&&y==1) return mkNot(Z3_get_app_arg(Z,a,0)); } } }
  return Z3_mk_eq(Z, v.e, mkBV(1,1)); }

// ---- reals
static Z3_ast pow2Real(int e) { // 2^e
  static std::map<int,Z3_ast> c; auto& r = c[e]; if (r) return r;
  int a = std::abs(e); std::string digs = "1"; // decimal big int
  for (int i=0;i<a;i++) { int carry=0; for (int j=(int)digs.size()-1;j>=0;j--) { int d=(digs[j]-'0')*2+carry; digs[j]='0'+d%10; carry=d/10; } if (carry) digs.insert(digs.begin(), '0'+carry); }
  r = Z3_mk_numeral(Z, e>=0 ? digs.c_str() : ("1/"+digs).c_str(), SReal); return r; }
static Z3_ast dblToReal(double d) {
  if (!std::isfinite(d)) unsup("non-finite double used as exact real");
  static std::unordered_map<u64,Z3_ast> c; u64 b; memcpy(&b,&d,8); auto& r = c[b]; if (r) return r;
  if (d==0) return r = Z3_mk_numeral(Z,"0",SReal);
  int e; double m = frexp(d,&e); int64_t mi = (int64_t)ldexp(m,53); e -= 53; while ((mi&1)==0) { mi/=2; e++; }
  Z3_ast n = Z3_mk_numeral(Z, std::to_string(mi).c_str(), SReal);
  if (e==0) return r = n; Z3_ast a[2] = {n, pow2Real(e)}; return r = simp(Z3_mk_mul(Z,2,a)); }
static bool realToDbl(Z3_ast n, double& out) { // only when exact
  int64_t p,q; if (!Z3_get_numeral_rational_int64(Z, n, &p, &q)) return false; if (q<=0) return false; if (q & (q-1)) return false; 
  if (p > (1ll<<53) || p < -(1ll<<53)) return false; out = (double)p/(double)q; return true; }
static Val VR(const Rat& r) { // normalise
  Rat* n = new Rat(r); if (isNum(n->num)) { bool zero = false; int64_t p,q; if (Z3_get_numeral_rational_int64(Z,n->num,&p,&q) && p==0) zero = true; if (zero) return VD(0.0); if (n->den.empty()) { double d; if (realToDbl(n->num,d)) return VD(d); } }
  Val x; x.k = KREAL; x.w = 64; x.r = n; return x; }
static Rat toRat(const Val& v) { if (v.k==KREAL) return *v.r; if (v.k==KDBL) return Rat{dblToReal(v.d), {}};
  if (v.k==KINT && v.w==64) { double d; memcpy(&d,&v.u,8); return Rat{dblToReal(d),{}}; } unsup("toRat of non-real"); }
static Z3_ast rmul(Z3_ast a, Z3_ast b) { Z3_ast x[2]={a,b}; return simpR(Z3_mk_mul(Z,2,x)); }
static Z3_ast radd(Z3_ast a, Z3_ast b) { Z3_ast x[2]={a,b}; return simpR(Z3_mk_add(Z,2,x)); }
static Z3_ast rneg(Z3_ast a) { return simpR(Z3_mk_unary_minus(Z,a)); }
static Z3_ast rOne() { static Z3_ast o = nullptr; if (!o) o = Z3_mk_numeral(Z,"1",SReal); return o; }
static Z3_ast rZero() { static Z3_ast o = nullptr; if (!o) o = Z3_mk_numeral(Z,"0",SReal); return o; }
static Z3_ast mulPow(Z3_ast a, Z3_ast f, int k) { for (int i=0;i<k;i++) a = rmul(a,f); return a; }
static Z3_ast denProd(const Rat& r) { Z3_ast p = rOne(); for (auto& d : r.den) p = mulPow(p,d.first,d.second); return p; }
static void normDen(Rat& r) { if (isNum(r.num)) return; for (size_t i=0;i<r.den.size();) { if (r.den[i].first==r.num) { r.num = rOne(); if (--r.den[i].second==0) { r.den.erase(r.den.begin()+i); } break; } i++; } }
static Rat ratAdd(const Rat& a, const Rat& b, bool sub) {
  Rat o; std::map<Z3_ast,int> L; for (auto& d:a.den) L[d.first]=d.second; for (auto& d:b.den) { auto& x=L[d.first]; x=std::max(x,d.second); }
  auto up=[&](const Rat& r){ Z3_ast n=r.num; for (auto& l:L) { int have=0; for (auto& d:r.den) if (d.first==l.first) have=d.second; n=mulPow(n,l.first,l.second-have);} return n; };
  Z3_ast na=up(a), nb=up(b); if (sub) nb=rneg(nb); o.num=radd(na,nb); for (auto& l:L) o.den.push_back({l.first,l.second}); normDen(o); return o; }
static Rat ratMul(const Rat& a0, const Rat& b0) { Rat a=a0,b=b0;
  auto cancel=[&](Rat& n, Rat& d){ for (size_t i=0;i<d.den.size();i++) if (d.den[i].first==n.num) { n.num=rOne(); if (--d.den[i].second==0) d.den.erase(d.den.begin()+i); break; } };
  if (!isNum(a.num)) cancel(a,b); if (!isNum(b.num)) cancel(b,a);
  Rat o; o.num=rmul(a.num,b.num); std::map<Z3_ast,int> L; for (auto& d:a.den) L[d.first]+=d.second; for (auto& d:b.den) L[d.first]+=d.second; for (auto& l:L) o.den.push_back({l.first,l.second}); normDen(o); return o; }
static Z3_ast ratTerm(const Rat& r) { if (r.den.empty()) return r.num; return Z3_mk_div(Z, r.num, denProd(r)); }
static bool ratIdentical(const Rat& a, const Rat& b) { Rat d = ratAdd(a,b,true); int64_t p,q; return isNum(d.num) && Z3_get_numeral_rational_int64(Z,d.num,&p,&q) && p==0; }

// ---------------------------------------------------------------- memory
// pointer = id<<32 | (OFF0 + offset);  function pointers: id >= FUNBASE
static const u32 OFF0 = 0x10000000; static const u32 FUNBASE = 0xE0000000u;
struct Cell { Val v; u32 size; };
struct Obj { int rc = 1; u32 size = 0; bool alive = true, ro = false, allInit = true; u8 kind = 0; /*0 heap(malloc) 1 stack 2 global 3 new 4 new[]*/ std::vector<u8> b; std::vector<bool> init; std::map<u32,Cell> sym; std::string name; };
struct Chunk { int rc = 1; Obj* o[64]; Chunk() { memset(o,0,sizeof o); } };
struct Mem {
  std::vector<Chunk*> c; u32 next = 1;
  Mem() {} Mem(const Mem& m) : c(m.c), next(m.next) { for (auto* x : c) x->rc++; } Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto* x : c) relChunk(x); }
  static void relChunk(Chunk* x) { if (--x->rc==0) { for (auto* o : x->o) if (o && --o->rc==0) delete o; delete x; } }
  const Obj* get(u32 id) const { u32 ci=id>>6; if (ci>=c.size()) return nullptr; return c[ci]->o[id&63]; }
  Chunk* wchunk(u32 ci) { Chunk*& x=c[ci]; if (x->rc>1) { Chunk* n=new Chunk; for (int i=0;i<64;i++) { n->o[i]=x->o[i]; if (n->o[i]) n->o[i]->rc++; } x->rc--; x=n; } return x; }
  Obj* getW(u32 id) { u32 ci=id>>6; if (ci>=c.size()) return nullptr; Chunk* x=wchunk(ci); Obj*& o=x->o[id&63]; if (o && o->rc>1) { Obj* n=new Obj(*o); n->rc=1; o->rc--; o=n; } return o; }
  u32 alloc(u32 size, u8 kind, bool init) { u32 id=next++; u32 ci=id>>6; while (c.size()<=ci) c.push_back(new Chunk); Chunk* x=wchunk(ci); Obj* o=new Obj; o->size=size; o->kind=kind; o->b.assign(size,0); o->allInit=init; if (!init) o->init.assign(size,false); x->o[id&63]=o; return id; }
  void drop(u32 id) { u32 ci=id>>6; Chunk* x=wchunk(ci); Obj*& o=x->o[id&63]; if (o) { if (--o->rc==0) delete o; o=nullptr; } }
};
static inline u64 mkptr(u32 id, u32 off=0) { return ((u64)id<<32) | (u64)(OFF0+off); }

// ---------------------------------------------------------------- precompiled program
struct PInst { const Instruction* I; unsigned op; int dst; u32 gid; std::vector<int> ops; std::vector<int> aux; const void* pf = nullptr; u64 imm = 0; unsigned w = 0; };
struct PBlock { std::vector<PInst> ins; u32 nphi = 0; std::map<int,u32> preds; };
struct PFunc { const Function* F; u32 id; int nregs = 0; std::vector<PBlock> bb; std::vector<int> args; bool compiled = false; bool inRepo = false; std::string name; };
static Module* M; static const DataLayout* DL;
static std::vector<PFunc*> FUNCS; static DenseMap<const Function*, PFunc*> FMAP; static std::vector<Val> CONSTS; static DenseMap<const Constant*, int> CMAP; static DenseMap<const GlobalVariable*, u32> GMAP; static u32 NEXTGID = 0;
static std::vector<std::pair<std::string,unsigned>> GIDLINE;

struct Frame { PFunc* f; u32 bb=0, ip=0, prev=0; std::vector<Val> r; std::vector<u32> allocas; int retDst=-1; const PInst* callInst=nullptr; };
struct InputRec { std::string name; int kind; /*0 int 1 real 2 choice*/ Val v; };
struct Exc { u64 obj, tinfo; };
struct Transc { int kind; Rat arg, arg2; Z3_ast var; }; // 0 log 1 exp 2 sqrt 3 pow
struct State {
  Mem mem; std::vector<Frame> st; std::vector<Z3_ast> pc; Z3_model model=nullptr; std::vector<InputRec> inputs; std::map<Z3_ast,Val> conc; u64 insts=0; std::vector<Transc> tr;
  std::vector<Exc> excStack; std::vector<Exc> caught; u64 curExc=0, curTI=0; std::vector<std::string> obs; std::map<Z3_ast,int> sign; std::map<u32,u64> excCnt; u64 depth=0; bool uncaughtExpected=false;
  State() {} State(const State& s) : mem(s.mem), st(s.st), pc(s.pc), model(s.model), inputs(s.inputs), conc(s.conc), insts(s.insts), tr(s.tr), excStack(s.excStack), caught(s.caught), curExc(s.curExc), curTI(s.curTI), obs(s.obs), sign(s.sign), excCnt(s.excCnt), depth(s.depth) { if (model) Z3_model_inc_ref(Z, model); }
  ~State() { if (model) Z3_model_dec_ref(Z, model); }
  void setModel(Z3_model m) { if (m) Z3_model_inc_ref(Z,m); if (model) Z3_model_dec_ref(Z,model); model=m; }
};

// ---------------------------------------------------------------- solver
static Z3_solver SOLV; static std::vector<Z3_ast> SPATH; static Z3_model LASTMODEL = nullptr;
static Z3_solver newSolver() { Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,s); Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),QTIMEOUT); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"random_seed"),1); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p); return s; }
static void keepModel(Z3_solver s) { Z3_model m = Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,m); if (LASTMODEL) Z3_model_dec_ref(Z,LASTMODEL); LASTMODEL=m; }
static void collectVars(Z3_ast a, std::set<Z3_ast>& vis, std::set<Z3_ast>& vars) {
  if (!vis.insert(a).second) return; if (Z3_get_ast_kind(Z,a)!=Z3_APP_AST) return; Z3_app p=Z3_to_app(Z,a); unsigned n=Z3_get_app_num_args(Z,p);
  if (n==0) { if (Z3_get_decl_kind(Z,Z3_get_app_decl(Z,p))==Z3_OP_UNINTERPRETED) vars.insert(a); return; } for (unsigned i=0;i<n;i++) collectVars(Z3_get_app_arg(Z,p,i),vis,vars); }
static const std::set<Z3_ast>& varsOf(Z3_ast a) { static std::unordered_map<Z3_ast,std::set<Z3_ast>> c; auto it=c.find(a); if (it!=c.end()) return it->second; std::set<Z3_ast> vis,v; collectVars(a,vis,v); return c[a]=v; }
// some solver procedures ignore the resource limit: interrupt them after a while (the query then counts as unanswered)
static void onAlarm(int) { Z3_interrupt(Z); }
struct Watch { Watch() { static bool on=false; if (!on) { on=true; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onAlarm; sa.sa_flags=SA_RESTART; sigaction(SIGALRM,&sa,nullptr); } arm(10); } ~Watch() { arm(0); } static void arm(int s) { itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=s; t.it_interval.tv_sec=s?2:0; setitimer(ITIMER_REAL,&t,nullptr); } };
// is pc && extra satisfiable?  1 sat, -1 unsat, 0 unknown.  Model in LASTMODEL when sat.
static int checkSat(State& S, Z3_ast extra) {
  double t0=nowS(); SH->queries++; int res=0;
  if (!REALMODE) {
    size_t k=0; while (k<SPATH.size() && k<S.pc.size() && SPATH[k]==S.pc[k]) k++;
    if (SPATH.size()>k) { Z3_solver_pop(Z,SOLV,SPATH.size()-k); SPATH.resize(k); }
    for (;k<S.pc.size();k++) { Z3_solver_push(Z,SOLV); Z3_solver_assert(Z,SOLV,S.pc[k]); SPATH.push_back(S.pc[k]); }
    Z3_solver_push(Z,SOLV); if (extra) Z3_solver_assert(Z,SOLV,extra);
    res=Z3_solver_check(Z,SOLV); if (res==Z3_L_TRUE) keepModel(SOLV); Z3_solver_pop(Z,SOLV,1);
  }
  if (res==0) { // fresh solver; with `extra`, first on the constraints connected to it
    std::vector<char> in(S.pc.size(),0);
    if (extra) { std::set<Z3_ast> vs=varsOf(extra); bool ch=true; while (ch) { ch=false; for (size_t i=0;i<S.pc.size();i++) if (!in[i]) { const auto& v=varsOf(S.pc[i]); for (auto x:v) if (vs.count(x)) { in[i]=1; ch=true; vs.insert(v.begin(),v.end()); break; } } } } else std::fill(in.begin(),in.end(),1);
    auto run=[&](bool all, int strat){ Z3_solver s; if (strat==0) s=newSolver(); else { Z3_tactic t; if (strat==1) t=Z3_mk_tactic(Z,"qfnra-nlsat"); else t=Z3_mk_tactic(Z,"default"); Z3_tactic_inc_ref(Z,t); if (strat==1) { Z3_tactic a=Z3_mk_tactic(Z,"purify-arith"); Z3_tactic_inc_ref(Z,a); Z3_tactic sp=Z3_mk_tactic(Z,"simplify"); Z3_tactic_inc_ref(Z,sp); t=Z3_tactic_and_then(Z,sp,Z3_tactic_and_then(Z,a,t)); Z3_tactic_inc_ref(Z,t);} s=Z3_mk_solver_from_tactic(Z,t); Z3_solver_inc_ref(Z,s); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"rlimit"),QTIMEOUT); Z3_solver_set_params(Z,s,p);} 
      for (size_t i=0;i<S.pc.size();i++) if (all||in[i]) Z3_solver_assert(Z,s,S.pc[i]); if (extra) Z3_solver_assert(Z,s,extra); Watch w; int r=Z3_solver_check(Z,s); if (r==Z3_L_TRUE) keepModel(s); Z3_solver_dec_ref(Z,s); return r; };
    res=run(false,0);
    if (res==Z3_L_UNDEF && REALMODE) res=run(false,1);
    if (res==Z3_L_UNDEF) res=run(false,2);
    if (res==Z3_L_TRUE && extra) { // a model of the slice must be completed to the whole path condition: merge with the state's model
      bool whole=true; for (char c:in) if (!c) whole=false;
      if (!whole) { bool ok=true; Z3_model m=LASTMODEL; for (auto c:S.pc) { Z3_ast o; if (!Z3_model_eval(Z,m,c,true,&o) || o!=TRUE_) { ok=false; break; } } if (!ok) { // build combined model: slice vars from new model, others from the old one
          if (S.model) { Z3_model nm=Z3_mk_model(Z); Z3_model_inc_ref(Z,nm); std::set<Z3_ast> sv=varsOf(extra); for (size_t i=0;i<in.size();i++) if (in[i]) { auto& v=varsOf(S.pc[i]); sv.insert(v.begin(),v.end()); }
              std::set<Z3_ast> all; for (auto c:S.pc) { auto& v=varsOf(c); all.insert(v.begin(),v.end()); } for (auto x:sv) all.insert(x);
              for (auto x:all) { Z3_ast o; if (Z3_model_eval(Z, sv.count(x)?m:S.model, x, true, &o)) Z3_add_const_interp(Z,nm,Z3_get_app_decl(Z,Z3_to_app(Z,x)),o); }
              if (LASTMODEL) Z3_model_dec_ref(Z,LASTMODEL); LASTMODEL=nm; }
          else { int r=run(true,0); if (r==Z3_L_UNDEF) r=run(true,2); if (r==Z3_L_UNDEF) res=Z3_L_UNDEF; else res=r; } } } }
  }
  if (res==1) SH->sat++; else if (res==-1) SH->unsat++; else SH->unknown++;
  double dt=nowS()-t0; SH->nanosSolver+=(u64)(dt*1e9);
  if (VERBOSE && dt>2) fprintf(stderr,"slow query %.1fs res=%d: %.3000s\n",dt,res, extra?Z3_ast_to_string(Z,extra):"-");
  return res; }
static void addPC(State& S, Z3_ast c) { if (c==TRUE_) return; S.pc.push_back(c); u64 n=S.pc.size(); if (n>SH->peakPC) SH->peakPC=n; }
static int evalModel(State& S, Z3_ast c) { if (!S.model) return 0; Z3_ast o; if (!Z3_model_eval(Z,S.model,c,true,&o)) return 0; if (o==TRUE_) return 1; if (o==FALSE_) return -1; return 0; }
static void ensureModel(State& S) { if (!S.model) { int r=checkSat(S,nullptr); if (r==1) S.setModel(LASTMODEL); } }

// ---------------------------------------------------------------- worklist
static std::vector<State*> WORK; 
struct PathEnd {}; // thrown to finish the current state
struct Retry {};   // re-execute the current instruction
static u64 FAILN=0;

// Branch on c: adds the chosen side to S, pushes the other side as a new state (which re-executes the current instruction).
static std::string stackOf(State& S);
static bool branch(State& S, Z3_ast c) {
  if (SH->stop) throw PathEnd{}; if (nowS()>DEADLINE) { if (!SH->stop.exchange(2)) emit("{\"t\":\"inconclusive\",\"msg\":\"time budget exhausted\"}"); SH->inconclusive++; SH->killed++; throw PathEnd{}; }
  c = simp(c); if (c==TRUE_) return true; if (c==FALSE_) return false;
  Z3_ast nc = simp(mkNot(c));
  for (auto p : S.pc) { if (p==c) return true; if (p==nc) return false; }
  ensureModel(S); int mv=evalModel(S,c); int t, f; Z3_model mt=nullptr, mf=nullptr; auto hold=[&](Z3_model& m){ m=LASTMODEL; Z3_model_inc_ref(Z,m); };
  if (mv==1) { t=1; f=checkSat(S,nc); if (f==1) hold(mf); }
  else if (mv==-1) { f=1; t=checkSat(S,c); if (t==1) hold(mt); }
  else { t=checkSat(S,c); if (t==1) hold(mt); if (t==-1) f=1; else { f=checkSat(S,nc); if (f==1) hold(mf); } }
  if (t==0 || f==0) { if (VERBOSE) fprintf(stderr,"unknown at branch, both sides kept\n"); }
  bool tf=(t!=-1), ff=(f!=-1);
  if (tf && ff) { if (getenv("SX_FORKLOG")) fprintf(stderr,"FORK %s\n",stackOf(S).substr(0,260).c_str()); State* o=new State(S); addPC(*o,nc); if (mf) o->setModel(mf); else if (mv!=-1) o->setModel(nullptr); WORK.push_back(o); SH->forks++; addPC(S,c); if (mt) S.setModel(mt); else if (mv!=1) S.setModel(nullptr); S.depth++; o->depth++; }
  else if (tf) { } // implied: nothing to add
  if (mt) Z3_model_dec_ref(Z,mt); if (mf) Z3_model_dec_ref(Z,mf);
  if (!tf && !ff) throw PathEnd{};
  return tf; }

static Val concretize(State& S, const Val& v, int limit=256) { // to KINT
  if (v.k==KINT || v.k==KDBL) return v; if (v.k!=KBV) unsup("concretize of non-bitvector");
  auto it=S.conc.find(v.e); if (it!=S.conc.end()) return it->second;
  if (v.w>64) { Z3_ast s=simp(v.e); if (isNum(s)) return v; unsup("symbolic value wider than 64 bits concretized"); }
  Z3_ast s=simp(v.e); if (isNum(s)) { Val r=VBV(s,v.w); return r; }
  ensureModel(S); if (!S.model) { int r=checkSat(S,nullptr); if (r==-1) throw PathEnd{}; unsup("no model to concretize an address/size"); }
  Z3_ast o; uint64_t x; if (!Z3_model_eval(Z,S.model,v.e,true,&o) || !isNum(o) || !Z3_get_numeral_uint64(Z,o,&x)) unsup("concretize: no numeral");
  auto& cnt=S.excCnt[(u32)(uintptr_t)v.e]; if ((int)++cnt>limit) unsup("concretize: too many values");
  if (!branch(S, Z3_mk_eq(Z,v.e,mkBV(x,v.w)))) throw Retry{};
  Val r=VI(x,v.w); S.conc[v.e]=r; return r; }

// syntactic sign of a sum of monomials: every monomial is a product of even powers and of atoms of known sign; 1 pos, 3 >=0, -1 neg, -3 <=0, 0 unknown
static int monoSign(State& S, Z3_ast f) {
  int all=0; bool strict=false; std::vector<Z3_ast> terms{f};
  while (!terms.empty()) { Z3_ast t=terms.back(); terms.pop_back(); if (Z3_get_ast_kind(Z,t)==Z3_APP_AST&&!isNum(t)) { Z3_app a=Z3_to_app(Z,t); if (Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_ADD) { unsigned n=Z3_get_app_num_args(Z,a); if (n>400) return 0; for (unsigned i=0;i<n;i++) terms.push_back(Z3_get_app_arg(Z,a,i)); continue; } }
    int s=1; bool st=true; std::map<Z3_ast,int> deg; std::vector<std::pair<Z3_ast,int>> fac{{t,1}};
    while (!fac.empty()) { auto [x,k]=fac.back(); fac.pop_back(); if (isNum(x)) { int64_t p,q; if (Z3_get_numeral_rational_int64(Z,x,&p,&q)) { if (!p) { s=0; break; } if (p<0&&k%2) s=-s; } else { std::string z=numStr(x); if (z[0]=='-'&&k%2) s=-s; } continue; }
      if (Z3_get_ast_kind(Z,x)!=Z3_APP_AST) return 0; Z3_app a=Z3_to_app(Z,x); auto dk=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a)); unsigned n=Z3_get_app_num_args(Z,a);
      if (dk==Z3_OP_MUL) { for (unsigned i=0;i<n;i++) fac.push_back({Z3_get_app_arg(Z,a,i),k}); } else if (dk==Z3_OP_POWER&&isNum(Z3_get_app_arg(Z,a,1))) { int64_t p,q; if (!Z3_get_numeral_rational_int64(Z,Z3_get_app_arg(Z,a,1),&p,&q)||q!=1||p<0) return 0; fac.push_back({Z3_get_app_arg(Z,a,0),k*(int)p}); }
      else if (dk==Z3_OP_UMINUS) { if (k%2) s=-s; fac.push_back({Z3_get_app_arg(Z,a,0),k}); } else deg[x]+=k; }
    if (!s) continue;
    for (auto& d:deg) { auto it=S.sign.find(d.first); int ds=it==S.sign.end()?0:it->second; if (d.second%2==0) { if (!ds) st=false; } else { if (ds!=1&&ds!=-1) return 0; if (ds<0) s=-s; } }
    if (all&&all!=s) return 0; all=s; strict=strict||st; }
  return all==0?0:strict?all:3*all; }
// sign of a real polynomial under the path condition: 1 pos, -1 neg, 2 nonzero unknown sign, 0 may be zero
static int signOf(State& S, Z3_ast f) {
  if (isNum(f)) { Z3_ast z=simp(Z3_mk_gt(Z,f,rZero())); if (z==TRUE_) return 1; z=simp(Z3_mk_lt(Z,f,rZero())); return z==TRUE_?-1:0; }
  auto it=S.sign.find(f); if (it!=S.sign.end()) return it->second; { int m=monoSign(S,f); if (m==1||m==-1) return S.sign[f]=m; } SH->divchecks++;
  int r; ensureModel(S); Z3_ast o; int guess=0; if (S.model && Z3_model_eval(Z,S.model,Z3_mk_gt(Z,f,rZero()),true,&o)) guess = o==TRUE_?1:-1;
  if (guess>=0 && checkSat(S,Z3_mk_le(Z,f,rZero()))==-1) r=1; else if (guess<=0 && checkSat(S,Z3_mk_ge(Z,f,rZero()))==-1) r=-1; else r = checkSat(S,Z3_mk_eq(Z,f,rZero()))==-1 ? 2 : 0;
  S.sign[f]=r; return r; }
static Z3_ast cmpReal(State& S, const Rat& a, const Rat& b, int op) { // op: 0 eq 1 lt 2 le ; b - a sign test
  Rat d=ratAdd(b,a,true); Z3_ast n=d.num; int flip=1;
  if (op==0) return simpR(Z3_mk_eq(Z,n,rZero()));
  for (auto& f:d.den) { if (f.second%2==0) continue; int s=signOf(S,f.first); if (s==1) continue; if (s==-1) { flip=-flip; continue; } n=rmul(n,f.first); }
  if (flip<0) n=rneg(n);
  if (!isNum(n)) { int m=monoSign(S,n); if (op==1) { if (m==1) return TRUE_; if (m==-1||m==-3) return FALSE_; } else { if (m==1||m==3) return TRUE_; if (m==-1) return FALSE_; } }
  return simpR(op==1 ? Z3_mk_gt(Z,n,rZero()) : Z3_mk_ge(Z,n,rZero())); }

// ---- real-mode arithmetic on values
static bool exactAdd(double a,double b,double s){ double bb=s-a; double e=(a-(s-bb))+(b-bb); return std::isfinite(s)&&e==0; }
static Val rAdd(const Val& a,const Val& b,bool sub){ if (a.k==KDBL&&b.k==KDBL){ double y=sub?-b.d:b.d; double s=a.d+y; if (!std::isfinite(a.d)||!std::isfinite(y)||exactAdd(a.d,y,s)) return VD(s); }
  else if ((a.k==KDBL&&!std::isfinite(a.d))) return a; else if (b.k==KDBL&&!std::isfinite(b.d)) return VD(sub?-b.d:b.d);
  if (b.k==KDBL&&b.d==0) return a; if (a.k==KDBL&&a.d==0&&!sub) return b; return VR(ratAdd(toRat(a),toRat(b),sub)); }
static Val rMul(const Val& a,const Val& b){ if (a.k==KDBL&&b.k==KDBL){ double p=a.d*b.d; if (!std::isfinite(p)||a.d==0||b.d==0) return VD(p); if (std::fabs(p)>1e-290&&fma(a.d,b.d,-p)==0) return VD(p); }
  if (a.k==KDBL&&a.d==1) return b; if (b.k==KDBL&&b.d==1) return a;
  if ((a.k==KDBL&&!std::isfinite(a.d))||(b.k==KDBL&&!std::isfinite(b.d))) unsup("non-finite times symbolic real");
  if ((a.k==KDBL&&a.d==0)||(b.k==KDBL&&b.d==0)) return VD(0); return VR(ratMul(toRat(a),toRat(b))); }
static Val rDiv(State& S,const Val& a,const Val& b){
  if (a.k==KDBL&&b.k==KDBL){ double q=a.d/b.d; if (!std::isfinite(q)||a.d==0||b.d==0||!std::isfinite(b.d)) return VD(q); if (std::fabs(a.d)>1e-250&&fma(q,b.d,-a.d)==0) return VD(q); }
  if (b.k==KDBL&&std::isinf(b.d)) return VD(0); if (a.k==KDBL&&!std::isfinite(a.d)) unsup("non-finite over symbolic real");
  if (b.k==KDBL&&b.d==0) unsup("symbolic real divided by zero");
  if (b.k==KDBL&&b.d==1) return a;
  Rat B=toRat(b); Rat inv; inv.num=rOne(); for (auto& d:B.den) inv.num=mulPow(inv.num,d.first,d.second);
  if (isNum(B.num)) { Z3_ast x=simp(Z3_mk_div(Z,rOne(),B.num)); inv.num=rmul(inv.num,x); }
  else { int s=signOf(S,B.num); if (s==0) { // split off the (undefined in exact arithmetic) zero-denominator case
      SH->assumedNonzero++; Z3_ast nz=mkNot(Z3_mk_eq(Z,B.num,rZero())); if (evalModel(S,nz)!=1) { if (checkSat(S,nz)!=1) throw PathEnd{}; S.setModel(LASTMODEL);} addPC(S,nz); S.sign[B.num]=2; }
    // split numeric content off, so that c*x and x share a denominator factor
    inv.den.push_back({B.num,1}); }
  return VR(ratMul(toRat(a),inv)); }
static Val rNeg(const Val& a){ if (a.k==KDBL) return VD(-a.d); Rat r=toRat(a); r.num=rneg(r.num); return VR(r); }

static Z3_ast mkFPsort() { static Z3_sort s=nullptr; if (!s) s=Z3_mk_fpa_sort_64(Z); return (Z3_ast)s; }
static Z3_ast toFP(const Val& v){ return Z3_mk_fpa_to_fp_bv(Z,toBV(v),(Z3_sort)mkFPsort()); }
static Val fromFP(Z3_ast f){ return VBV(simp(Z3_mk_fpa_to_ieee_bv(Z,f)),64); }
static Z3_ast RNE(){ static Z3_ast r=nullptr; if(!r) r=Z3_mk_fpa_rne(Z); return r; }

static Z3_ast fpNaN(Z3_ast b){ Z3_ast m=Z3_mk_bvand(Z,b,mkBV(0x7fffffffffffffffull,64)); return Z3_mk_bvugt(Z,m,mkBV(0x7ff0000000000000ull,64)); }
static Z3_ast fpKey(Z3_ast b){ // monotone key (both zeros map to the same key)
  Z3_ast sgn=Z3_mk_eq(Z,Z3_mk_extract(Z,63,63,b),mkBV(1,1)); Z3_ast mag=Z3_mk_bvand(Z,b,mkBV(0x7fffffffffffffffull,64)); return Z3_mk_ite(Z,sgn,Z3_mk_bvneg(Z,mag),mag); }
static Val fcmp(State& S, unsigned pred, const Val& a, const Val& b) {
  bool ordTrue = pred & 8; // bit3 = unordered included
  if (pred==FCmpInst::FCMP_FALSE) return VI(0,1); if (pred==FCmpInst::FCMP_TRUE) return VI(1,1);
  auto conc=[&](double x,double y){ bool un=std::isnan(x)||std::isnan(y); bool r=(un&&(pred&8))||(!un&&(((pred&1)&&x==y)||((pred&2)&&x>y)||((pred&4)&&x<y))); return VI(r,1); };
  if (a.k==KDBL&&b.k==KDBL) return conc(a.d,b.d);
  if (REALMODE) {
    if (a.k==KDBL&&!std::isfinite(a.d)) return conc(a.d,0.0); if (b.k==KDBL&&!std::isfinite(b.d)) return conc(0.0,b.d);
    Rat A=toRat(a),B=toRat(b); unsigned p=pred&7; Z3_ast c; if (p==0) c=FALSE_; else if (p==7) c=TRUE_; else if (p==1) c=cmpReal(S,A,B,0); else if (p==6) c=mkNot(cmpReal(S,A,B,0)); else if (p==2) c=cmpReal(S,B,A,1); else if (p==3) c=cmpReal(S,B,A,2); else if (p==4) c=cmpReal(S,A,B,1); else c=cmpReal(S,A,B,2);
    (void)ordTrue; return VBool(c); }
  Z3_ast x=toBV(a),y=toBV(b); Z3_ast un=mkOr(fpNaN(x),fpNaN(y)); Z3_ast kx=fpKey(x),ky=fpKey(y); std::vector<Z3_ast> o; if (pred&1) o.push_back(Z3_mk_eq(Z,kx,ky)); if (pred&2) o.push_back(Z3_mk_bvsgt(Z,kx,ky)); if (pred&4) o.push_back(Z3_mk_bvslt(Z,kx,ky));
  Z3_ast c=o.empty()?FALSE_:Z3_mk_or(Z,o.size(),o.data()); c=mkAnd(mkNot(un),c); if (pred&8) c=mkOr(un,c); return VBool(c); }

// ---- polynomials as lists of monomials
struct Mono { Z3_ast c; std::map<Z3_ast,int> d; };
static bool monos(Z3_ast f, std::vector<Mono>& out) { std::vector<Z3_ast> terms{f};
  while (!terms.empty()) { Z3_ast t=terms.back(); terms.pop_back(); if (!isNum(t)&&Z3_get_ast_kind(Z,t)==Z3_APP_AST) { Z3_app a=Z3_to_app(Z,t); if (Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_ADD) { unsigned n=Z3_get_app_num_args(Z,a); if (n>3000) return false; for (unsigned i=n;i-->0;) terms.push_back(Z3_get_app_arg(Z,a,i)); continue; } }
    Mono m; m.c=rOne(); std::vector<std::pair<Z3_ast,int>> fac{{t,1}};
    while (!fac.empty()) { auto [x,k]=fac.back(); fac.pop_back(); if (isNum(x)) { for (int i=0;i<k;i++) m.c=rmul(m.c,x); continue; } if (Z3_get_ast_kind(Z,x)!=Z3_APP_AST) return false; Z3_app a=Z3_to_app(Z,x); auto dk=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a)); unsigned n=Z3_get_app_num_args(Z,a);
      if (dk==Z3_OP_MUL) { for (unsigned i=0;i<n;i++) fac.push_back({Z3_get_app_arg(Z,a,i),k}); } else if (dk==Z3_OP_POWER&&isNum(Z3_get_app_arg(Z,a,1))) { int64_t p,q; if (!Z3_get_numeral_rational_int64(Z,Z3_get_app_arg(Z,a,1),&p,&q)||q!=1||p<0||p>64) return false; fac.push_back({Z3_get_app_arg(Z,a,0),k*(int)p}); }
      else if (dk==Z3_OP_UMINUS) { if (k%2) m.c=rneg(m.c); fac.push_back({Z3_get_app_arg(Z,a,0),k}); } else if (dk==Z3_OP_ADD||dk==Z3_OP_SUB) return false; else m.d[x]+=k; }
    out.push_back(m); }
  return true; }
// replaces even powers of sqrt atoms by what they are the root of
static Rat reduceSqrt(State& S, const Rat& r0) { Rat r=r0; std::map<Z3_ast,const Transc*> sq; for (auto& t:S.tr) if (t.kind==2) sq[t.var]=&t; if (sq.empty()) return r;
  for (int round=0;round<4;round++) { std::vector<Mono> ms; if (!monos(r.num,ms)) return r; bool any=false; std::map<std::vector<std::pair<Z3_ast,int>>, std::vector<Z3_ast>> groups;
    for (auto& m:ms) { std::vector<std::pair<Z3_ast,int>> key; Z3_ast t=m.c; for (auto& d:m.d) { int k=d.second; if (k>=2&&sq.count(d.first)) { key.push_back({d.first,k/2}); k%=2; any=true; } t=mulPow(t,d.first,k); } groups[key].push_back(t); }
    if (!any) return r; Rat sum{rZero(),{}};
    for (auto& g:groups) { Z3_ast t=rZero(); for (auto x:g.second) t=radd(t,x); Rat q{t,{}}; for (auto& k:g.first) for (int i=0;i<k.second;i++) q=ratMul(q,sq[k.first]->arg); sum=ratAdd(sum,q,false); }
    Rat dn{rOne(),r.den}; r=ratMul(sum,dn); }
  return r; }

// ---- transcendental atoms (real mode)
static Rat ratOf(double d){ return Rat{dblToReal(d),{}}; }
static Val atom(State& S,int kind,const Rat& arg,const Rat& arg2=Rat{nullptr,{}}) {
  for (auto& t:S.tr) if (t.kind==kind && ratIdentical(t.arg,arg) && (kind!=3||ratIdentical(t.arg2,arg2))) return VR(Rat{t.var,{}});
  const char* nm[]={"log","exp","sqrt","pow"}; Transc t{kind,arg,arg2,fresh(nm[kind],SReal)}; Z3_ast v=t.var; auto add=[&](Z3_ast c){ addPC(S,c); }; auto eqz=[&](Z3_ast a,Z3_ast b){ return Z3_mk_eq(Z,a,b); };
  Z3_ast D=denProd(arg);
  if (kind==2) { int s=signOf(S,arg.num); (void)s; add(Z3_mk_ge(Z,v,rZero())); add(eqz(rmul(rmul(v,v),D),arg.num)); Z3_ast z=cmpReal(S,ratOf(0),arg,1); if (z==TRUE_) add(Z3_mk_gt(Z,v,rZero())); else if (checkSat(S,mkNot(z))==-1) { add(Z3_mk_gt(Z,v,rZero())); } S.setModel(nullptr); }
  if (kind==1) { add(Z3_mk_gt(Z,v,rZero())); // exp(a)*exp(b)=exp(a+b)
    for (auto& o:S.tr) if (o.kind==1) { if (ratIdentical(ratAdd(o.arg,arg,false),ratOf(0))) add(eqz(rmul(v,o.var),rOne())); for (auto& q:S.tr) if (q.kind==1) { if (ratIdentical(ratAdd(o.arg,q.arg,false),arg)) add(eqz(rmul(o.var,q.var),v)); if (ratIdentical(ratAdd(o.arg,arg,false),q.arg)) add(eqz(rmul(o.var,v),q.var)); } }
    for (auto& o:S.tr) if (o.kind==1) { Z3_ast c=cmpReal(S,arg,o.arg,1); add(Z3_mk_iff(Z,c,Z3_mk_lt(Z,v,o.var))); }
    // exp(x)=1 iff x=0; log/exp inverses
    add(Z3_mk_iff(Z,cmpReal(S,ratOf(0),arg,1),Z3_mk_gt(Z,v,rOne()))); add(Z3_mk_iff(Z,cmpReal(S,arg,ratOf(0),1),Z3_mk_lt(Z,v,rOne())));
    for (auto& o:S.tr) if (o.kind==0 && ratIdentical(Rat{o.var,{}},arg)) add(eqz(rmul(v,denProd(o.arg)),o.arg.num));
    S.setModel(nullptr); }
  if (kind==0) { size_t npc=S.pc.size(); auto nt=[&](Z3_ast f)->size_t{ if (isNum(f)||Z3_get_ast_kind(Z,f)!=Z3_APP_AST) return 1; Z3_app a=Z3_to_app(Z,f); return Z3_get_decl_kind(Z,Z3_get_app_decl(Z,a))==Z3_OP_ADD?Z3_get_app_num_args(Z,a):1; };
    std::vector<Transc> L; size_t na=nt(arg.num); for (auto& o:S.tr) if (o.kind==0&&na*nt(o.arg.num)<=200) L.push_back(o); // relations with the other logs, unless the polynomials get too large
    for (auto& o:L) { if (ratIdentical(ratMul(o.arg,arg),ratOf(1))) add(eqz(radd(v,o.var),rZero())); if (ratIdentical(ratMul(o.arg,o.arg),arg)) add(eqz(v,radd(o.var,o.var))); if (ratIdentical(ratMul(arg,arg),o.arg)) add(eqz(o.var,radd(v,v)));
      for (auto& q:L) { if (q.var==o.var) continue; if (o.var<q.var && ratIdentical(ratMul(o.arg,q.arg),arg)) add(eqz(v,radd(o.var,q.var))); if (ratIdentical(ratMul(o.arg,arg),q.arg)) add(eqz(q.var,radd(o.var,v))); } }
    for (auto& o:S.tr) if (o.kind==1 && ratIdentical(Rat{o.var,{}},arg)) add(eqz(rmul(v,denProd(o.arg)),o.arg.num));
    auto few=[&](const Rat& x,const Rat& y){ std::set<Z3_ast> vs=varsOf(x.num); auto more=[&](Z3_ast f){ auto& w=varsOf(f); vs.insert(w.begin(),w.end()); }; more(y.num); for (auto& d:x.den) more(d.first); for (auto& d:y.den) more(d.first); return vs.size()<=2; }; // order facts only where they stay easy for the solver
    for (auto& o:L) if (few(arg,o.arg)) { Z3_ast c=cmpReal(S,arg,o.arg,1); add(Z3_mk_iff(Z,c,Z3_mk_lt(Z,v,o.var))); }
    if (few(arg,arg)) { add(Z3_mk_iff(Z,cmpReal(S,ratOf(1),arg,1),Z3_mk_gt(Z,v,rZero()))); add(Z3_mk_iff(Z,cmpReal(S,arg,ratOf(1),1),Z3_mk_lt(Z,v,rZero()))); }
    if (S.pc.size()!=npc) S.setModel(nullptr); }
  if (kind==3) { add(Z3_mk_gt(Z,v,rZero())); S.setModel(nullptr); }
  S.tr.push_back(t); return VR(Rat{v,{}}); }
// log in normal form: logs of primes, of denominator factors and of the numerator scaled to leading coefficient one
static double numToDouble(Z3_ast);
static void logNum(State& S, Val& acc, Z3_ast x, int sgn) { // x: positive integer numeral
  auto put=[&](Z3_ast y,int k){ if (!k) return; Val l=atom(S,0,Rat{y,{}}); for (int i=0;i<std::abs(k);i++) acc=rAdd(acc,l,(k<0)!=(sgn<0)); };
  uint64_t v; if (!Z3_get_numeral_uint64(Z,x,&v)) { put(x,1); return; }
  for (uint64_t p=2;p<1000&&p*p<=v;p++) { int k=0; while (v%p==0) { v/=p; k++; } put(Z3_mk_unsigned_int64(Z,p,SReal),k); }
  if (v>1) put(Z3_mk_unsigned_int64(Z,v,SReal),1); }
static Val logOf(State& S, const Rat& r) {
  if (r.den.empty()&&Z3_get_ast_kind(Z,r.num)==Z3_APP_AST) for (auto& o:S.tr) if (o.kind==1&&o.var==r.num) return VR(o.arg);
  for (auto& d:r.den) { int s=signOf(S,d.first); if (s!=1&&s!=-1) return atom(S,0,r); }
  std::vector<Mono> ms; Z3_ast num=r.num; Val acc=VD(0); bool neg=false;
  for (auto& d:r.den) { Z3_ast f=d.first; if (signOf(S,f)<0) { f=rneg(f); S.sign[f]=1; if (d.second%2) neg=!neg; } Val l=logOf(S,Rat{f,{}}); for (int i=0;i<d.second;i++) acc=rAdd(acc,l,true); }
  if (neg) num=rneg(num);
  if (!monos(num,ms)||ms.empty()) return rAdd(acc,atom(S,0,Rat{num,{}}),false);
  Z3_ast c=ms[0].c; double cd=numToDouble(c); if (cd<0) c=rneg(c); Z3_ast cn=simp(c), nn=nullptr,dd=nullptr;
  { std::string t=Z3_get_numeral_string(Z,cn); size_t sl=t.find('/'); nn=Z3_mk_numeral(Z,t.substr(0,sl).c_str(),SReal); dd=sl==std::string::npos?rOne():Z3_mk_numeral(Z,t.substr(sl+1).c_str(),SReal); }
  logNum(S,acc,nn,1); logNum(S,acc,dd,-1);
  if (isNum(num)) return acc;
  Z3_ast p=rmul(num,simp(Z3_mk_div(Z,rOne(),cn)));
  if (ms.size()>1) { std::map<Z3_ast,int> g=ms[0].d; for (auto& m:ms) for (auto i=g.begin();i!=g.end();) { auto f=m.d.find(i->first); i->second=f==m.d.end()?0:std::min(i->second,f->second); if (!i->second) i=g.erase(i); else ++i; } // common factors
    for (auto i=g.begin();i!=g.end();) if (signOf(S,i->first)!=1) i=g.erase(i); else ++i;
    if (!g.empty()) { Z3_ast q=rZero(); for (auto& m:ms) { Z3_ast t=simp(Z3_mk_div(Z,m.c,cn)); for (auto& d:m.d) { auto f=g.find(d.first); t=mulPow(t,d.first,d.second-(f==g.end()?0:f->second)); } q=radd(q,t); } for (auto& d:g) { Val l=logOf(S,Rat{d.first,{}}); for (int i=0;i<d.second;i++) acc=rAdd(acc,l,false); } return rAdd(acc,logOf(S,Rat{q,{}}),false); } }
  if (ms.size()==1&&!(ms[0].d.size()==1&&ms[0].d.begin()->second==1)) { bool all=true; for (auto& d:ms[0].d) if (signOf(S,d.first)!=1) all=false; if (all) { for (auto& d:ms[0].d) { Val l=logOf(S,Rat{d.first,{}}); for (int i=0;i<d.second;i++) acc=rAdd(acc,l,false); } return acc; } }
  S.sign[p]=1; return rAdd(acc,atom(S,0,Rat{p,{}}),false); }
static Val mathFn(State& S, const std::string& n, const Val& a) {
  if (a.k==KDBL && (!REALMODE || !std::isfinite(a.d))) { double x=a.d; if (n=="log") return VD(log(x)); if (n=="exp") return VD(exp(x)); if (n=="sqrt") return VD(sqrt(x)); if (n=="log2") return VD(log2(x)); if (n=="lgamma") return VD(lgamma(x)); if (n=="log1p") return VD(log1p(x)); }
  if (!REALMODE) { if (n=="sqrt") return fromFP(Z3_mk_fpa_sqrt(Z,RNE(),toFP(a))); unsup("fp-mode symbolic "+n); }
  Rat r=toRat(a);
  if (CONCRETE&&r.den.empty()&&isNum(r.num)) { double x=numToDouble(r.num); if (n=="log") return VD(log(x)); if (n=="exp") return VD(exp(x)); if (n=="log1p") return VD(log1p(x)); }
  if (n=="log1p") { r=ratAdd(r,ratOf(1),false); }
  if (n=="log"||n=="log1p") { Val v=VR(r); if (v.k==KDBL) { if (v.d==1) return VD(0); if (v.d==0) return VD(-INFINITY); if (v.d<0) return VD(NAN); }
    else { Z3_ast pos=cmpReal(S,ratOf(0),r,1); if (!branch(S,pos)) { if (branch(S,cmpReal(S,r,ratOf(0),0))) return VD(-INFINITY); return VD(NAN); } }
    return logOf(S,r); }
  if (n=="exp") { Val v=VR(r); if (v.k==KDBL&&v.d==0) return VD(1);
    std::vector<Mono> ms; if (r.den.empty()&&monos(r.num,ms)) { Val f=VD(1); Rat rest{rZero(),{}}; bool any=false; // integer multiples of logs come out as powers
      for (auto& m:ms) { const Transc* lg=nullptr; double c=numToDouble(m.c); if (m.d.size()==1&&m.d.begin()->second==1&&c==std::floor(c)&&std::fabs(c)<=4) for (auto& o:S.tr) if (o.kind==0&&o.var==m.d.begin()->first) lg=&o;
        if (lg) { any=true; Val x=VR(lg->arg); for (int i=0;i<std::fabs(c);i++) f= c>0?rMul(f,x):rDiv(S,f,x); } else { Z3_ast t=m.c; for (auto& d:m.d) t=mulPow(t,d.first,d.second); rest=ratAdd(rest,Rat{t,{}},false); } }
      if (any) { Val e=VR(rest); return e.k==KDBL&&e.d==0?f:rMul(f,isNum(rest.num)&&ratIdentical(rest,ratOf(0))?VD(1):atom(S,1,rest)); } }
    return atom(S,1,r); }
  if (n=="sqrt") { Val v=VR(r); if (v.k==KDBL) { double q=std::sqrt(v.d); if (q*q==v.d && fma(q,q,-v.d)==0) return VD(q); if (v.d<0) return VD(NAN); } else { if (!branch(S,cmpReal(S,ratOf(0),r,2))) return VD(NAN); } return atom(S,2,r); }
  unsup("real-mode symbolic "+n); }
static Val powFn(State& S,const Val& a,const Val& b){ if (a.k==KDBL&&b.k==KDBL&&!REALMODE) return VD(pow(a.d,b.d));
  if (b.k==KDBL && b.d==std::floor(b.d) && std::fabs(b.d)<=16) { int e=(int)std::fabs(b.d); Val r=VD(1); for (int i=0;i<e;i++) { if (REALMODE) r=rMul(r,a); else { if (r.k==KDBL&&r.d==1) r=a; else r=fromFP(Z3_mk_fpa_mul(Z,RNE(),toFP(r),toFP(a))); } } if (b.d<0) r=rDiv(S,VD(1),r); return r; }
  if (!REALMODE) unsup("fp-mode symbolic pow"); if (a.k==KDBL&&a.d==1) return VD(1); if (b.k==KDBL&&b.d==0.5) return mathFn(S,"sqrt",a);
  // pow(x,-y) = 1/pow(x,y)
  Rat nb=toRat(b); Rat negb=nb; negb.num=rneg(nb.num); for (auto& t:S.tr) if (t.kind==3&&ratIdentical(t.arg,toRat(a))&&ratIdentical(t.arg2,negb)) { Rat r{rOne(),{{t.var,1}}}; S.sign[t.var]=1; return VR(r); }
  Val r=atom(S,3,toRat(a),nb); S.sign[r.r->num]=1; return r; }

#include "exec.inc"
