// ---------------------------------------------------------------- external functions, intrinsics, harness interface
static std::vector<std::pair<std::string,std::string>> CIN; static size_t CPOS = 0;
static void loadConcrete(const std::string& file) { // lines: name value
  FILE* f=fopen(file.c_str(),"r"); if (!f) { fprintf(stderr,"cannot read %s\n",file.c_str()); _exit(3); } char n[512],v[512]; while (fscanf(f,"%500s %500s",n,v)==2) CIN.push_back({n,v}); fclose(f); }
static bool nextConcrete(const std::string& n, std::string& v) { if (CPOS>=CIN.size()||CIN[CPOS].first!=n) return false; v=CIN[CPOS++].second; return true; }
static double parseD(const std::string& v) { if (v.compare(0,5,"bits:")==0) { u64 b=strtoull(v.c_str()+5,nullptr,10); double d; memcpy(&d,&b,8); return d; } return strtod(v.c_str(),nullptr); }
static u64 EMPTYSTR = 0;

static Val doAlloc(State& S, const Val& n, u8 kind, bool zero=false) { Val c=concretize(S,n); if (c.u>(1u<<26)) unsup("allocation larger than 64 MiB"); u32 id=S.mem.alloc((u32)c.u,kind,zero); return VI(mkptr(id),64); }
static void doFree(State& S, const Val& pv, u8 kind) { u64 p=ptrOf(S,pv); if (!p) return; u32 id=p>>32; const Obj* o=S.mem.get(id); if (!o) memErr(S,"free of a wild pointer"); if (!o->alive) memErr(S,"double free"); if ((u32)p!=OFF0) memErr(S,"free of an interior pointer"); if (o->kind==1||o->kind==2) memErr(S,"free of a non-heap object"); if (o->kind!=kind && !(o->kind==0&&kind==0)) memErr(S,"allocation and deallocation functions do not match");
  Obj* w=S.mem.getW(id); w->alive=false; std::vector<u8>().swap(w->b); std::vector<bool>().swap(w->init); w->sym.clear(); w->allInit=true; }

// decide an assertion; c is the asserted condition
static void sxAssert(State& S, Z3_ast c, const std::string& msg, Z3_ast strong1=nullptr, Z3_ast strong2=nullptr) {
  SH->asserts++; c=simp(c);
  if (c==TRUE_) { SH->trivially++; SH->discharged++; return; }
  Z3_ast nc=simp(mkNot(c)); bool pcHas=false; for (auto p:S.pc) if (p==c) { pcHas=true; break; }
  if (pcHas) { SH->trivially++; SH->discharged++; return; }
  int r=checkSat(S,nc);
  if (r==-1) { SH->discharged++; return; }
  if (r==0) { inconclusive(S,"solver gave no answer for: "+msg); addPC(S,c); S.setModel(nullptr); return; }
  Z3_model m=LASTMODEL; Z3_model_inc_ref(Z,m); Z3_ast used=nc;
  for (Z3_ast s : {strong1,strong2}) if (s) { Z3_ast e=simp(s); if (e==FALSE_) continue; if (checkSat(S,e)==1) { Z3_model_dec_ref(Z,m); m=LASTMODEL; Z3_model_inc_ref(Z,m); used=e; break; } }
  report(S,"assert",msg,used,m); Z3_model_dec_ref(Z,m);
  if (c==FALSE_) throw PathEnd{}; if (checkSat(S,c)!=1) throw PathEnd{}; S.setModel(LASTMODEL); addPC(S,c); }

static Val absV(State& S, const Val& a) { if (a.k==KDBL) return a.w==32?VF(std::fabs(a.d)):VD(std::fabs(a.d)); if (REALMODE) { bool neg=branch(S,cmpReal(S,toRat(a),ratOf(0),1)); return neg?rNeg(a):a; } return VBV(simp(Z3_mk_bvand(Z,toBV(a),mkBV(0x7fffffffffffffffull,64))),64); }
static Val floorV(State& S, const Val& a, int mode) { if (a.k==KDBL) return VD(mode==0?std::floor(a.d):mode==1?std::ceil(a.d):mode==2?std::trunc(a.d):std::round(a.d)); unsup("symbolic floor/ceil/round"); }
static Val maxV(State& S, const Val& a, const Val& b, bool mx) { if (a.k==KDBL&&b.k==KDBL) return VD(mx?fmax(a.d,b.d):fmin(a.d,b.d)); Val c=fcmp(S,mx?FCmpInst::FCMP_OGE:FCmpInst::FCMP_OLE,a,b); bool t= c.k==KINT? c.u : branch(S,toBool(c)); return t?a:b; }
static Val vmap1(const Val& a, const std::function<Val(const Val&)>& f) { if (a.k==KAGG) { std::vector<Val> v; for (auto& x:a.a->v) v.push_back(f(x)); return VAgg(v); } return f(a); }

static bool inputInt(const std::string& n, int64_t& out) { std::string v; if (!CONCRETE) return false; if (!nextConcrete(n,v)) unsup("concrete input "+n+" missing"); out=strtoll(v.c_str(),nullptr,10); return true; }

static void setupExt() {
  { u32 id=INIT->mem.alloc(16,2,true); EMPTYSTR=mkptr(id); }
  auto N=[&](std::initializer_list<const char*> ns, Ext f){ for (auto n:ns) EXT[n]=f; };
#define EX [](State& S, std::vector<Val>& a, const PInst& q)->Val
#define UN (void)S;(void)a;(void)q;
  N({"_Znwm","_ZnwmRKSt9nothrow_t","_ZnwmSt11align_val_t","_ZnwmSt11align_val_tRKSt9nothrow_t"}, EX{UN return doAlloc(S,a[0],3);});
  N({"_Znam","_ZnamRKSt9nothrow_t","_ZnamSt11align_val_t"}, EX{UN return doAlloc(S,a[0],4);});
  N({"malloc"}, EX{UN return doAlloc(S,a[0],0);}); N({"calloc"}, EX{UN Val x=concretize(S,a[0]),y=concretize(S,a[1]); return doAlloc(S,VI(x.u*y.u,64),0,true);});
  N({"aligned_alloc"}, EX{UN return doAlloc(S,a[1],0);});
  N({"posix_memalign"}, EX{UN Val p=doAlloc(S,a[2],0); storeScalar(S,ptrOf(S,a[0]),p,8); return VI(0,32);});
  N({"realloc"}, EX{UN Val n=concretize(S,a[1]); u64 p=ptrOf(S,a[0]); Val r=doAlloc(S,n,0); if (p) { const Obj* o=S.mem.get(p>>32); u64 m=std::min<u64>(o?o->size:0,n.u); memCopy(S,r.u,p,m); doFree(S,a[0],0); } return r;});
  N({"_ZdlPv","_ZdlPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdlPvRKSt9nothrow_t"}, EX{UN doFree(S,a[0],3); return VI(0,64);});
  N({"_ZdaPv","_ZdaPvm","_ZdaPvSt11align_val_t"}, EX{UN doFree(S,a[0],4); return VI(0,64);});
  N({"free"}, EX{UN doFree(S,a[0],0); return VI(0,64);});
  N({"memcpy","memmove"}, EX{UN Val n=concretize(S,a[2]); memCopy(S,n.u?ptrOf(S,a[0]):0,n.u?ptrOf(S,a[1]):0,n.u); return a[0];});
  N({"memset"}, EX{UN Val n=concretize(S,a[2]); Val b=a[1]; if (b.k==KINT) b=VI(b.u,8); else b=VBV(simp(Z3_mk_extract(Z,7,0,b.e)),8); memSet(S,n.u?ptrOf(S,a[0]):0,b,n.u); return a[0];});
  Ext mcmp=EX{UN Val n=concretize(S,a[2]); if (!n.u) return VI(0,32); u64 p=ptrOf(S,a[0]),r=ptrOf(S,a[1]); if (p==r) return VI(0,32); std::vector<std::pair<Val,Val>> bs; for (u64 i=0;i<n.u;i++) { Val x=loadScalar(S,p+i,1,8,false,false),y=loadScalar(S,r+i,1,8,false,false); if (x.k==KINT&&y.k==KINT&&x.u==y.u) continue; bs.push_back({x,y}); if (x.k==KINT&&y.k==KINT) break; }
    Z3_ast e=mkBV(0,32); for (size_t i=bs.size();i-->0;) { Z3_ast x=toBV(bs[i].first),y=toBV(bs[i].second); e=simp(Z3_mk_ite(Z,Z3_mk_eq(Z,x,y),e,Z3_mk_ite(Z,Z3_mk_bvult(Z,x,y),mkBV(0xffffffffu,32),mkBV(1,32)))); } return VBV(e,32);};
  N({"memcmp","bcmp"},mcmp);
  N({"strlen"}, EX{UN return VI(cstr(S,ptrOf(S,a[0])).size(),64);});
  N({"strcmp"}, EX{UN std::string x=cstr(S,ptrOf(S,a[0])),y=cstr(S,ptrOf(S,a[1])); return VI((u64)(int64_t)x.compare(y),32);});
  N({"strncmp"}, EX{UN u64 n=concretize(S,a[2]).u; std::string x=cstr(S,ptrOf(S,a[0])).substr(0,n),y=cstr(S,ptrOf(S,a[1])).substr(0,n); return VI((u64)(int64_t)x.compare(y),32);});
  N({"memchr"}, EX{UN u64 n=concretize(S,a[2]).u,p=ptrOf(S,a[0]); u8 c=concretize(S,a[1]).u; for (u64 i=0;i<n;i++) if (concretize(S,loadScalar(S,p+i,1,8,false,false)).u==c) return VI(p+i,64); return VI(0,64);});
  // exceptions: object at offset 16, type id kept in front of it
  N({"__cxa_allocate_exception"}, EX{UN Val n=concretize(S,a[0]); u32 id=S.mem.alloc((u32)n.u+16,0,true); return VI(mkptr(id,16),64);});
  N({"__cxa_free_exception"}, EX{UN return VI(0,64);});
  N({"__cxa_throw"}, EX{UN u64 p=ptrOf(S,a[0]); storeScalar(S,p-16,a[1],8); throw Thrown{p,a[1].u};});
  N({"__cxa_begin_catch","__cxa_get_exception_ptr"}, EX{UN S.caught.push_back({a[0].u,S.curTI}); return a[0];});
  N({"__cxa_get_exception_ptr"}, EX{UN return a[0];});
  N({"__cxa_end_catch"}, EX{UN if (!S.caught.empty()) S.caught.pop_back(); return VI(0,64);});
  N({"__cxa_rethrow"}, EX{UN if (S.caught.empty()) failState(S,"exception","rethrow without exception"); Exc e=S.caught.back(); throw Thrown{e.obj,e.tinfo};});
  N({"__cxa_guard_acquire"}, EX{UN u64 p=ptrOf(S,a[0]); Val v=loadScalar(S,p,1,8,false,false); return VI(v.u?0:1,32);});
  N({"__cxa_guard_release"}, EX{UN storeScalar(S,ptrOf(S,a[0]),VI(1,8),1); return VI(0,64);}); N({"__cxa_guard_abort"}, EX{UN return VI(0,64);});
  N({"__cxa_atexit","atexit","__cxa_thread_atexit"}, EX{UN return VI(0,32);});
  N({"__dynamic_cast"}, EX{UN u64 p=ptrOf(S,a[0]); if (!p) return VI(0,64); u64 vt=loadScalar(S,p,8,64,false,false).u; u64 top=loadScalar(S,vt-16,8,64,false,false).u; u64 ti=loadScalar(S,vt-8,8,64,false,false).u; u64 whole=p+top; if (tiMatch(S,ti,a[2].u)) return VI(whole,64); return VI(0,64);});
  N({"__cxa_pure_virtual"}, EX{UN failState(S,"ub","pure virtual call"); return VI(0,64);});
  N({"abort","_ZSt9terminatev","__clang_call_terminate"}, EX{UN failState(S,"abort","abort/terminate called"); return VI(0,64);});
  N({"exit","_exit"}, EX{UN throw PathEnd{};});
  N({"__assert_fail"}, EX{UN failState(S,"abort","assert failed: "+cstr(S,ptrOf(S,a[0]))); return VI(0,64);});
  N({"_ZSt21__glibcxx_assert_failPKciS0_S0_"}, EX{UN failState(S,"memory","library precondition violated: "+(a.size()>3?cstr(S,ptrOf(S,a[3])):std::string())); return VI(0,64);});
#define TH(nm,ti) N({nm}, EX{UN throwStd(S,ti); return VI(0,64);})
  TH("_ZSt20__throw_length_errorPKc","_ZTISt12length_error"); TH("_ZSt19__throw_logic_errorPKc","_ZTISt11logic_error"); TH("_ZSt20__throw_out_of_rangePKc","_ZTISt12out_of_range"); TH("_ZSt24__throw_out_of_range_fmtPKcz","_ZTISt12out_of_range"); TH("_ZSt17__throw_bad_allocv","_ZTISt9bad_alloc"); TH("_ZSt28__throw_bad_array_new_lengthv","_ZTISt20bad_array_new_length"); TH("_ZSt25__throw_bad_function_callv","_ZTISt17bad_function_call"); TH("_ZSt24__throw_invalid_argumentPKc","_ZTISt16invalid_argument"); TH("_ZSt21__throw_runtime_errorPKc","_ZTISt13runtime_error"); TH("_ZSt16__throw_bad_castv","_ZTISt8bad_cast");
  // stdio: output only
  N({"printf","puts","putchar","fprintf","fputs","fputc","fflush","vprintf","vfprintf","fwrite","putc"}, EX{UN return VI(0,32);});
  N({"vsnprintf","snprintf","vsprintf","sprintf"}, EX{UN Val n=a[1]; u64 p=ptrOf(S,a[0]); if (p && !(n.k==KINT&&n.u==0)) storeScalar(S,p,VI(0,8),1); return VI(0,32);});
  // math
  for (const char* n:{"log","exp","sqrt","log1p","log2","lgamma"}) { std::string m=n; EXT[m]=[m](State& S,std::vector<Val>& a,const PInst&)->Val{ return mathFn(S,m,a[0]); }; }
  N({"lgamma_r"}, EX{UN return mathFn(S,"lgamma",a[0]);}); N({"pow"}, EX{UN return powFn(S,a[0],a[1]);}); N({"fabs"}, EX{UN return absV(S,a[0]);});
  N({"floor"}, EX{UN return floorV(S,a[0],0);}); N({"ceil"}, EX{UN return floorV(S,a[0],1);}); N({"trunc"}, EX{UN return floorV(S,a[0],2);}); N({"round"}, EX{UN return floorV(S,a[0],3);});
  N({"fmax"}, EX{UN return maxV(S,a[0],a[1],true);}); N({"fmin"}, EX{UN return maxV(S,a[0],a[1],false);});
  N({"cos"}, EX{UN if (a[0].k!=KDBL) unsup("symbolic cos"); return VD(cos(a[0].d));}); N({"sin"}, EX{UN if (a[0].k!=KDBL) unsup("symbolic sin"); return VD(sin(a[0].d));});
  N({"nan","nanf"}, EX{UN return VD(NAN);});
  // ---- harness interface
  N({"sx_native"}, EX{UN return VI(0,32);});
  N({"sx_int"}, EX{UN std::string n=cstr(S,ptrOf(S,a[0])); int64_t lo=(int64_t)a[1].u, hi=(int64_t)a[2].u, cv; if (inputInt(n,cv)) return VI((u64)cv,64); if (lo==hi) { S.inputs.push_back({n,0,VI((u64)lo,64)}); return VI((u64)lo,64); }
    Z3_ast v=fresh(n.c_str(),bvs(64)); Val x; x.k=KBV; x.w=64; x.e=v; addPC(S,Z3_mk_bvsge(Z,v,mkBV((u64)lo,64))); addPC(S,Z3_mk_bvsle(Z,v,mkBV((u64)hi,64))); S.setModel(nullptr); S.inputs.push_back({n,0,x}); return x;});
  N({"sx_choice"}, EX{UN std::string n=cstr(S,ptrOf(S,a[0])); u64 k=concretize(S,a[1]).u; int64_t cv; if (inputInt(n,cv)) return VI((u64)cv,64); if (!k) throw PathEnd{};
    for (u64 i=k-1;i>=1;i--) { State* o=new State(S); o->inputs.push_back({n,2,VI(i,64)}); finishCall(*o,q,VI(i,64)); o->depth++; WORK.push_back(o); SH->forks++; } S.inputs.push_back({n,2,VI(0,64)}); return VI(0,64);});
  N({"sx_real"}, EX{UN std::string n=cstr(S,ptrOf(S,a[0])); double lo=a[1].d,hi=a[2].d; if (CONCRETE) { std::string v; if (!nextConcrete(n,v)) unsup("concrete input "+n+" missing"); return VD(parseD(v)); }
    if (REALMODE) { Z3_ast v=fresh(n.c_str(),SReal); addPC(S,Z3_mk_ge(Z,v,dblToReal(lo))); addPC(S,Z3_mk_le(Z,v,dblToReal(hi))); if (lo>0) S.sign[v]=1; if (hi<0) S.sign[v]=-1; S.setModel(nullptr); Val x; x.k=KREAL; x.w=64; x.r=new Rat{v,{}}; S.inputs.push_back({n,1,x}); return x; }
    Z3_ast v=fresh(n.c_str(),bvs(64)); Val x; x.k=KBV; x.w=64; x.e=v; addPC(S,toBool(fcmp(S,FCmpInst::FCMP_OGE,x,VD(lo)))); addPC(S,toBool(fcmp(S,FCmpInst::FCMP_OLE,x,VD(hi)))); S.setModel(nullptr); S.inputs.push_back({n,1,x}); return x;});
  N({"sx_any_double"}, EX{UN std::string n=cstr(S,ptrOf(S,a[0])); if (CONCRETE) { std::string v; if (!nextConcrete(n,v)) unsup("concrete input "+n+" missing"); return VD(parseD(v)); } if (REALMODE) unsup("sx_any_double needs fp mode"); Z3_ast v=fresh(n.c_str(),bvs(64)); Val x; x.k=KBV; x.w=64; x.e=v; S.setModel(nullptr); S.inputs.push_back({n,1,x}); return x;});
  N({"sx_assume"}, EX{UN if (a[0].k==KINT) { if (!a[0].u) throw PathEnd{}; return VI(0,32); } Z3_ast c=simp(mkNot(Z3_mk_eq(Z,toBV(a[0]),mkBV(0,a[0].w)))); if (c==TRUE_) return VI(0,32); if (c==FALSE_) throw PathEnd{}; if (evalModel(S,c)!=1) { int r=checkSat(S,c); if (r==-1) throw PathEnd{}; S.setModel(r==1?LASTMODEL:nullptr); } addPC(S,c); return VI(0,32);});
  N({"sx_assert"}, EX{UN std::string m=cstr(S,ptrOf(S,a[1])); if (a[0].k==KINT) { SH->asserts++; if (a[0].u) { SH->discharged++; SH->trivially++; return VI(0,32); } failState(S,"assert",m); } sxAssert(S,mkNot(Z3_mk_eq(Z,toBV(a[0]),mkBV(0,a[0].w))),m); return VI(0,32);});
  N({"sx_check_eq"}, EX{UN std::string m=cstr(S,ptrOf(S,a[2])); const Val&x=a[0],&y=a[1];
    if (CONCRETE&&REALMODE) { auto num=[&](const Val& v,double& d){ if (v.k==KDBL) { d=v.d; return true; } Rat r=toRat(v); if (!isNum(r.num)) return false; d=numToDouble(r.num); for (auto& f:r.den) { if (!isNum(f.first)) return false; d/=std::pow(numToDouble(f.first),f.second); } return true; }; double p,q;
      if (num(x,p)&&num(y,q)&&std::fabs(p-q)<=1e-6*(1e-3+std::fabs(p)+std::fabs(q))) return VI(0,32); } // validation runs: logarithms are evaluated in floating point
    if (x.k==KDBL&&y.k==KDBL) { SH->asserts++; bool ok= x.d==y.d||(std::isnan(x.d)&&std::isnan(y.d)); if (!ok&&std::fabs(x.d-y.d)<=1e-9*(1+std::fabs(x.d)+std::fabs(y.d))) ok=true; if (ok) { SH->discharged++; SH->trivially++; return VI(0,32); } failState(S,"assert",m); }
    if (REALMODE) { if ((x.k==KDBL&&!std::isfinite(x.d))||(y.k==KDBL&&!std::isfinite(y.d))) { SH->asserts++; failState(S,"assert",m+" (finite against non-finite)"); } Rat d=reduceSqrt(S,ratAdd(toRat(x),toRat(y),true)); if (VERBOSE&&!isNum(d.num)) fprintf(stderr,"eq %s: %.600s\n",m.c_str(),Z3_ast_to_string(Z,d.num)); Z3_ast D=denProd(d); Z3_ast ten=dblToReal(0.01); Z3_ast s1=nullptr; { Z3_ast D2=rmul(D,D); Z3_ast n2=rmul(d.num,d.num); s1=Z3_mk_ge(Z,n2,rmul(D2,ten)); } sxAssert(S,Z3_mk_eq(Z,d.num,rZero()),m,s1); return VI(0,32); }
    Z3_ast p=toBV(x),r=toBV(y); Z3_ast both=mkAnd(fpNaN(p),fpNaN(r)); Z3_ast eq=mkAnd(mkAnd(mkNot(fpNaN(p)),mkNot(fpNaN(r))),Z3_mk_eq(Z,fpKey(p),fpKey(r))); sxAssert(S,mkOr(both,eq),m); return VI(0,32);});
  N({"sx_reach"}, EX{UN std::string m=cstr(S,ptrOf(S,a[0])); static std::set<std::string> seen; if (seen.count(m)) return VI(0,32); ensureModel(S); if (S.model) { seen.insert(m); emit("{\"t\":\"reach\",\"label\":\""+jesc(m)+"\"}"); } return VI(0,32);});
  N({"sx_sample"}, EX{UN if (CONCRETE) return VI(0,32); static int cnt=0; if (cnt++>=3) return VI(0,32); ensureModel(S); if (S.model) emit("{\"t\":\"sample\",\"inputs\":"+inputJson(S,S.model,{})+"}"); return VI(0,32);});
  N({"sx_observe"}, EX{UN if (!CONCRETE) return VI(0,32); std::string m=cstr(S,ptrOf(S,a[0])); double d=0; if (a[1].k==KDBL) d=a[1].d; else if (a[1].k==KREAL) { ensureModel(S); Z3_ast t=ratTerm(*a[1].r); if (S.model) d=evalD(S.model,t); else { Z3_ast s=simp(t); d=isNum(s)?numToDouble(s):NAN; } } char b[64]; snprintf(b,64,"%.12g",d); emit("{\"t\":\"obs\",\"n\":\""+jesc(m)+"\",\"v\":\""+b+"\"}"); return VI(0,32);});
  N({"sx_observe_i"}, EX{UN if (!CONCRETE) return VI(0,32); std::string m=cstr(S,ptrOf(S,a[0])); Val v=concretize(S,a[1]); emit("{\"t\":\"obs\",\"n\":\""+jesc(m)+"\",\"v\":\""+std::to_string((int64_t)v.u)+"\"}"); return VI(0,32);});
  N({"sx_concrete"}, EX{UN return concretize(S,a[0]);});
  N({"sx_symbolic_d"}, EX{UN return VI(a[0].k==KDBL?0:1,32);});
  N({"sx_done"}, EX{UN throw PathEnd{};});
  N({"sx_log"}, EX{UN fprintf(stderr,"[log] %s\n",cstr(S,ptrOf(S,a[0])).c_str()); return VI(0,32);});
}
static std::map<std::string,Ext*> XI;
static Ext* intrinsic(const std::string& n) {
  auto sw=[&](const char* p){ return n.compare(0,strlen(p),p)==0; }; auto mk=[&](Ext f){ return new Ext(f); };
  if (sw("llvm.lifetime")||sw("llvm.dbg")||sw("llvm.assume")||sw("llvm.experimental.noalias")||sw("llvm.invariant")||sw("llvm.prefetch")||sw("llvm.va_start")||sw("llvm.va_end")||sw("llvm.stackrestore")||sw("llvm.donothing")||sw("llvm.var.annotation")) return mk(EX{UN return VI(0,64);});
  if (sw("llvm.stacksave")) return mk(EX{UN return VI(0,64);});
  if (sw("llvm.memcpy")||sw("llvm.memmove")) return &EXT["memcpy"]; if (sw("llvm.memset")) return &EXT["memset"];
  if (sw("llvm.expect")||sw("llvm.launder")||sw("llvm.strip")||sw("llvm.ssa.copy")||sw("llvm.threadlocal")||sw("llvm.ptr.annotation")) return mk(EX{UN return a[0];});
  if (sw("llvm.eh.typeid.for")) return mk(EX{UN return VI(a[0].u?(a[0].u>>32)+2:1,32);});
  if (sw("llvm.trap")||sw("llvm.ubsantrap")) return mk(EX{UN failState(S,"ub","trap"); return VI(0,64);});
  if (sw("llvm.is.constant")) return mk(EX{UN return VI(0,1);}); if (sw("llvm.objectsize")) return mk(EX{UN return VI(a[1].u?0:(u64)-1,64);});
  for (const char* m:{"log","exp","sqrt","log2"}) { std::string p=std::string("llvm.")+m+".f64"; if (n==p) { std::string mm=m; return mk([mm](State& S,std::vector<Val>& a,const PInst&)->Val{ return mathFn(S,mm,a[0]); }); } }
  if (sw("llvm.pow.")) return &EXT["pow"]; if (sw("llvm.powi.")) return mk(EX{UN Val e=concretize(S,a[1]); return powFn(S,a[0],VD((double)(int32_t)e.u));});
  if (sw("llvm.fabs.")) return mk(EX{UN return vmap1(a[0],[&](const Val&x){return absV(S,x);});});
  if (sw("llvm.floor.")) return &EXT["floor"]; if (sw("llvm.ceil.")) return &EXT["ceil"]; if (sw("llvm.trunc.")) return &EXT["trunc"]; if (sw("llvm.round.")) return &EXT["round"];
  if (sw("llvm.maxnum.")||sw("llvm.maximum.")) return &EXT["fmax"]; if (sw("llvm.minnum.")||sw("llvm.minimum.")) return &EXT["fmin"];
  if (sw("llvm.fmuladd.")||sw("llvm.fma.")) return mk(EX{UN if (a[0].k==KAGG) { std::vector<Val> v; for (size_t i=0;i<a[0].a->v.size();i++) v.push_back(fbin(S,Instruction::FAdd,fbin(S,Instruction::FMul,a[0].a->v[i],a[1].a->v[i]),a[2].a->v[i])); return VAgg(v); } return fbin(S,Instruction::FAdd,fbin(S,Instruction::FMul,a[0],a[1]),a[2]);});
  if (sw("llvm.copysign.")) return mk(EX{UN if (a[0].k!=KDBL||a[1].k!=KDBL) unsup("symbolic copysign"); return VD(copysign(a[0].d,a[1].d));});
  if (sw("llvm.is.fpclass")) return mk(EX{UN u64 m=a[1].u; if (a[0].k!=KDBL) { if (REALMODE) { return VI((m&0x3fc&~0x204)?1:0,1); } Z3_ast b=toBV(a[0]); Z3_ast nan=fpNaN(b); Z3_ast mag=Z3_mk_bvand(Z,b,mkBV(0x7fffffffffffffffull,64)); Z3_ast inf=Z3_mk_eq(Z,mag,mkBV(0x7ff0000000000000ull,64)); std::vector<Z3_ast> o; if ((m&3)==3) o.push_back(nan); if ((m&0x204)==0x204) o.push_back(inf); if ((m&0x1f8)==0x1f8) o.push_back(mkAnd(mkNot(nan),mkNot(inf))); if (o.empty()) unsup("is.fpclass mask"); return VBool(Z3_mk_or(Z,o.size(),o.data())); }
    double d=a[0].d; bool r=false; int c=std::fpclassify(d); bool s=std::signbit(d); if (c==FP_NAN) r=m&3; else if (c==FP_INFINITE) r=m&(s?4:512); else if (c==FP_NORMAL) r=m&(s?8:256); else if (c==FP_SUBNORMAL) r=m&(s?16:128); else r=m&(s?32:64); return VI(r,1);});
  struct { const char* p; unsigned pred; } mm[]={{"llvm.umax",CmpInst::ICMP_UGT},{"llvm.umin",CmpInst::ICMP_ULT},{"llvm.smax",CmpInst::ICMP_SGT},{"llvm.smin",CmpInst::ICMP_SLT}};
  for (auto& x:mm) if (sw(x.p)) { unsigned pr=x.pred; return mk([pr](State&,std::vector<Val>& a,const PInst&)->Val{ auto f=[pr](const Val&x,const Val&y)->Val{ Val c=icmp(pr,x,y); if (c.k==KINT) return c.u?x:y; return VBV(simp(Z3_mk_ite(Z,toBool(c),toBV(x),toBV(y))),x.w); }; if (a[0].k==KAGG) { std::vector<Val> v; for (size_t i=0;i<a[0].a->v.size();i++) v.push_back(f(a[0].a->v[i],a[1].a->v[i])); return VAgg(v);} return f(a[0],a[1]); }); }
  if (sw("llvm.abs.")) return mk(EX{UN const Val&x=a[0]; if (x.k==KINT) { int64_t v=sx(x.u,x.w); return VI((u64)(v<0?-v:v),x.w);} return VBV(simp(Z3_mk_ite(Z,Z3_mk_bvslt(Z,x.e,mkBV(0,x.w)),Z3_mk_bvneg(Z,x.e),x.e)),x.w);});
  if (sw("llvm.ctlz.")) return mk(EX{UN Val x=concretize(S,a[0]); unsigned w=x.w; unsigned c=0; for (int i=w-1;i>=0&&!((x.u>>i)&1);i--) c++; return VI(c,w);}); if (sw("llvm.cttz.")) return mk(EX{UN Val x=concretize(S,a[0]); unsigned c=0; for (unsigned i=0;i<x.w&&!((x.u>>i)&1);i++) c++; return VI(c,x.w);}); if (sw("llvm.ctpop.")) return mk(EX{UN Val x=concretize(S,a[0]); return VI(__builtin_popcountll(x.u),x.w);});
  if (sw("llvm.bswap.")) return mk(EX{UN Val x=concretize(S,a[0]); u64 r=0; for (unsigned i=0;i<x.w/8;i++) r|=((x.u>>(8*i))&255)<<(x.w-8-8*i); return VI(r,x.w);});
  if (sw("llvm.fshl.")||sw("llvm.fshr.")) { bool l=sw("llvm.fshl."); return mk([l](State& S,std::vector<Val>& a,const PInst&)->Val{ Val x=concretize(S,a[0]),y=concretize(S,a[1]),s=concretize(S,a[2]); unsigned w=x.w,k=s.u%w; if (l) return VI(k?(x.u<<k)|(maskw(y.u,w)>>(w-k)):x.u,w); return VI(k?(x.u<<(w-k))|(maskw(y.u,w)>>k):y.u,w); }); }
  for (const char* o:{"sadd","uadd","ssub","usub","smul","umul"}) { std::string p=std::string("llvm.")+o+".with.overflow"; if (sw(p.c_str())) { std::string oo=o; return mk([oo](State& S,std::vector<Val>& a,const PInst&)->Val{ Val x=a[0],y=a[1]; unsigned w=x.w; unsigned op= oo.substr(1)=="add"?Instruction::Add:oo.substr(1)=="sub"?Instruction::Sub:Instruction::Mul; Val r=ibin(S,op,x,y,w); Val ov; if (x.k==KINT&&y.k==KINT) { bool o; if (oo[0]=='s') { __int128 p=sx(x.u,w),q2=sx(y.u,w),t= op==Instruction::Add?p+q2:op==Instruction::Sub?p-q2:p*q2; o= t!=(__int128)sx(maskw((u64)t,w),w); } else { unsigned __int128 p=x.u,q2=y.u,t= op==Instruction::Add?p+q2:op==Instruction::Sub?p-q2:p*q2; o= t!=(unsigned __int128)maskw((u64)t,w); } ov=VI(o,1); }
        else { Z3_ast p=toBV(x),q2=toBV(y); unsigned W=2*w; auto ext=[&](Z3_ast e){ return oo[0]=='s'?Z3_mk_sign_ext(Z,w,e):Z3_mk_zero_ext(Z,w,e); }; Z3_ast P=ext(p),Q=ext(q2); Z3_ast t= op==Instruction::Add?Z3_mk_bvadd(Z,P,Q):op==Instruction::Sub?Z3_mk_bvsub(Z,P,Q):Z3_mk_bvmul(Z,P,Q); (void)W; Z3_ast back=ext(Z3_mk_extract(Z,w-1,0,t)); ov=VBool(mkNot(Z3_mk_eq(Z,t,back))); } return VAgg({r,ov}); }); } }
  if (sw("llvm.usub.sat")) return mk(EX{UN Val c=icmp(CmpInst::ICMP_ULT,a[0],a[1]); Val d=ibin(S,Instruction::Sub,a[0],a[1],a[0].w); if (c.k==KINT) return c.u?VI(0,a[0].w):d; return VBV(simp(Z3_mk_ite(Z,toBool(c),mkBV(0,a[0].w),toBV(d))),a[0].w);});
  if (sw("llvm.vector.reduce.")) { std::string o=n.substr(19); o=o.substr(0,o.find('.')); return mk([o](State& S,std::vector<Val>& a,const PInst&)->Val{ bool f=o=="fadd"||o=="fmul"; Val acc; size_t i=0; const Val& v=f?a[1]:a[0]; if (f) acc=a[0]; else acc=v.a->v[i++]; for (;i<v.a->v.size();i++) { const Val&x=v.a->v[i]; if (o=="fadd") acc=fbin(S,Instruction::FAdd,acc,x); else if (o=="fmul") acc=fbin(S,Instruction::FMul,acc,x); else if (o=="add") acc=ibin(S,Instruction::Add,acc,x,x.w); else if (o=="or") acc=ibin(S,Instruction::Or,acc,x,x.w); else if (o=="and") acc=ibin(S,Instruction::And,acc,x,x.w); else unsup("vector.reduce."+o); } return acc; }); }
  return nullptr; }
static Ext* findExt(const Function* F) {
  std::string n=F->getName().str();
  if (n.compare(0,5,"llvm.")==0) { auto it=XI.find(n); if (it!=XI.end()) return it->second; Ext* e=intrinsic(n); XI[n]=e; return e; }
  auto it=EXT.find(n); if (it!=EXT.end()) return &it->second;
  static Ext noop=EX{UN return a.empty()?VI(0,64):a[0];}; static Ext what=EX{UN return VI(EMPTYSTR,64);};
  static Ext zero=EX{UN return VI(0,64);};
  std::string d=dem(n); auto sw=[&](const char* p){ return d.compare(0,strlen(p),p)==0; };
  auto has=[&](const char* p){ return d.find(p)!=std::string::npos; };
  if (sw("std::basic_ostream<")||sw("std::ostream::")||sw("std::basic_ostream<char, std::char_traits<char>>& std::")||sw("std::ios_base::")||sw("std::basic_ios<")||sw("std::locale::")||sw("std::basic_istream<")||sw("std::basic_filebuf")||sw("std::__basic_file")) return &noop;
  if (has("std::operator<<")&&has("basic_ostream")) return &noop;
  if (F->isDeclaration()) { if (has("::what() const")) return &what;
    for (const char* c:{"std::runtime_error::","std::logic_error::","std::exception::","std::out_of_range::","std::length_error::","std::invalid_argument::","std::bad_alloc::","std::domain_error::"}) if (sw(c)) return &noop;
    for (const char* c:{"clock_gettime","std::chrono::_V2::"}) if (sw(c)) return &zero; }
  return nullptr; }
