// ---------------------------------------------------------------- failure reporting
static std::string dem(const std::string& n) { return demangle(n); }
static std::string stackOf(State& S) { std::string o; for (int i=(int)S.st.size()-1, k=0;i>=0&&k<8;i--,k++) { auto& f=S.st[i]; std::string loc; if (f.bb<f.f->bb.size()&&f.ip<f.f->bb[f.bb].ins.size()) if (auto& d=f.f->bb[f.bb].ins[f.ip].I->getDebugLoc()) loc=std::string(d->getFilename())+":"+std::to_string(d.getLine()); std::string n=f.f->name; if (n.size()>90) n=n.substr(0,90)+"..."; o+=(k?" < ":"")+n+(loc.empty()?"":"@"+loc); } return o; }
static double numToDouble(Z3_ast n) { if (Z3_is_algebraic_number(Z,n) && !isNum(n)) n=Z3_get_algebraic_number_lower(Z,n,20); else if (Z3_get_ast_kind(Z,n)!=Z3_NUMERAL_AST && Z3_is_algebraic_number(Z,n)) n=Z3_get_algebraic_number_lower(Z,n,20);
  std::string s=Z3_get_numeral_decimal_string(Z,n,30); return strtod(s.c_str(),nullptr); }
static std::string inputJson(State& S, Z3_model m, const std::map<size_t,double>& over) { std::string o="["; for (size_t i=0;i<S.inputs.size();i++) { auto& in=S.inputs[i]; std::string v; 
    if (over.count(i)) { char b[64]; snprintf(b,64,"%.17g",over.at(i)); v=b; }
    else if (in.v.k==KINT) v=std::to_string((int64_t)sx(in.v.u,in.v.w)); else if (in.v.k==KDBL) { char b[64]; snprintf(b,64,"%.17g",in.v.d); v=b; }
    else if (in.v.k==KBV) { Z3_ast r; uint64_t x=0; if (m&&Z3_model_eval(Z,m,in.v.e,true,&r)) Z3_get_numeral_uint64(Z,r,&x); if (in.kind==1) { char b[64]; snprintf(b,64,"bits:%llu",(unsigned long long)x); v=b; } else v=std::to_string(sx(x,in.v.w)); }
    else if (in.v.k==KREAL) { Z3_ast r; double d=0; if (m&&Z3_model_eval(Z,m,in.v.r->num,true,&r)) d=numToDouble(r); char b[64]; snprintf(b,64,"%.17g",d); v=b; }
    o+=std::string(i?",":"")+"{\"n\":\""+in.name+"\",\"k\":"+std::to_string(in.kind)+",\"v\":\""+v+"\"}"; } return o+"]"; }
static double evalD(Z3_model m, Z3_ast t) { Z3_ast r; if (!m||!Z3_model_eval(Z,m,t,true,&r)) return 0; return numToDouble(r); }
// Try to make a model numerically faithful to the transcendental atoms: pin inputs, bound each atom by its numeric value.
static Z3_model refine(State& S, Z3_ast extra, Z3_model m0) {
  if (!REALMODE || S.tr.empty()) return m0;
  std::set<Z3_ast> atoms; for (auto& t:S.tr) atoms.insert(t.var);
  Z3_model cur=m0; Z3_model_inc_ref(Z,cur);
  for (int tries=0;tries<6;tries++) {
    State T(S); if (extra) T.pc.push_back(extra);
    // inputs used only as a whole argument of a log atom stay free (they are recomputed from the atom)
    std::set<Z3_ast> freeIn; for (auto& t:S.tr) if (t.kind==0 && t.arg.den.empty() && Z3_get_ast_kind(Z,t.arg.num)==Z3_APP_AST && varsOf(t.arg.num).size()==1 && *varsOf(t.arg.num).begin()==t.arg.num) { bool other=false; for (auto& q:S.tr) { if (q.var==t.var) continue; if (varsOf(q.arg.num).count(t.arg.num)) other=true; for (auto& d:q.arg.den) if (varsOf(d.first).count(t.arg.num)) other=true; } if (!other) freeIn.insert(t.arg.num); }
    std::map<Z3_ast,double> val;
    for (auto& in:S.inputs) if (in.v.k==KREAL && in.v.r->den.empty() && !freeIn.count(in.v.r->num) && !isNum(in.v.r->num)) { double d=evalD(cur,in.v.r->num); if (tries>=1) { int sc=tries>=3?4:16; d=std::round(d*sc)/sc; } val[in.v.r->num]=d; if (tries<5) T.pc.push_back(Z3_mk_eq(Z,in.v.r->num,dblToReal(d))); }
    // evaluate atoms in creation order
    bool ok=true; auto subst=[&](Z3_ast t)->double { std::vector<Z3_ast> f,to; for (auto& kv:val) { f.push_back(kv.first); to.push_back(dblToReal(kv.second)); } Z3_ast r=simp(Z3_substitute(Z,t,f.size(),f.data(),to.data())); if (!isNum(r)) { ok=false; return 0; } return numToDouble(r); };
    for (auto& t:S.tr) { ok=true; double a=subst(t.arg.num); for (auto& d:t.arg.den) { double q=subst(d.first); for (int i=0;i<d.second;i++) a/=q; } double a2=0; if (t.kind==3) { a2=subst(t.arg2.num); for (auto& d:t.arg2.den) a2/=subst(d.first); } if (!ok) continue;
      double v= t.kind==0?log(a):t.kind==1?exp(a):t.kind==2?sqrt(a):pow(a,a2); if (!std::isfinite(v)) continue; val[t.var]=v; if (t.kind!=2) { double e=1e-9*(1+std::fabs(v)); T.pc.push_back(Z3_mk_ge(Z,t.var,dblToReal(v-e))); T.pc.push_back(Z3_mk_le(Z,t.var,dblToReal(v+e))); } }
    int r=checkSat(T,nullptr); if (r==1) { Z3_model_inc_ref(Z,LASTMODEL); return LASTMODEL; }
  }
  return cur; }
static void report(State& S, const std::string& kind, const std::string& msg, Z3_ast extra, Z3_model m) {
  u64 n=SH->failures++; if (n>=(u64)MAXFAIL*4) return;
  if (m) Z3_model_inc_ref(Z,m); Z3_model mm = m? refine(S,extra,m) : nullptr; std::map<size_t,double> over;
  if (mm) for (auto& t:S.tr) if (t.kind==0) for (size_t i=0;i<S.inputs.size();i++) if (S.inputs[i].v.k==KREAL && t.arg.den.empty() && S.inputs[i].v.r->num==t.arg.num) over[i]=exp(evalD(mm,t.var));
  emit("{\"t\":\"fail\",\"kind\":\""+kind+"\",\"msg\":\""+jesc(msg)+"\",\"where\":\""+jesc(stackOf(S))+"\",\"inputs\":"+inputJson(S,mm,over)+"}");
  if (n+1>=(u64)MAXFAIL) SH->stop=1; }
static void failState(State& S, const std::string& kind, const std::string& msg) { ensureModel(S); if (!S.model) { int r=checkSat(S,nullptr); if (r==-1) throw PathEnd{}; if (r==0) { SH->inconclusive++; emit("{\"t\":\"inconclusive\",\"msg\":\"no model for: "+jesc(msg)+"\"}"); throw PathEnd{}; } S.setModel(LASTMODEL); } report(S,kind,msg,nullptr,S.model); throw PathEnd{}; }
static void inconclusive(State& S, const std::string& m) { SH->inconclusive++; emit("{\"t\":\"inconclusive\",\"msg\":\""+jesc(m)+"\",\"where\":\""+jesc(stackOf(S))+"\"}"); }

// ---------------------------------------------------------------- memory access
static void memErr(State& S, const std::string& m) { failState(S,"memory",m); }
static const Obj* access(State& S, u64 p, u64 n, u32& id, u32& off, bool wr) {
  id=p>>32; int64_t o=(int64_t)(u32)p-(int64_t)OFF0; if (id==0) memErr(S,"null (or small-integer) pointer dereference"); const Obj* ob=S.mem.get(id); if (!ob) memErr(S,"access through a dangling or wild pointer"); if (!ob->alive) memErr(S,"use after free");
  if (o<0||(u64)o+n>ob->size) memErr(S,"out-of-bounds access at offset "+std::to_string(o)+" size "+std::to_string(n)+" of a "+std::to_string(ob->size)+"-byte object "+ob->name); if (wr&&ob->ro) memErr(S,"write to read-only memory"); off=(u32)o; return ob; }
static u64 ptrOf(State& S, const Val& v) { Val c=concretize(S,v); if (c.k!=KINT) unsup("pointer is not an integer"); return c.u; }
static void splitCell(Obj* o, u32 off, u32 n) { // remove cells overlapping [off,off+n), keeping bytes of partially overlapped BV cells
  if (o->sym.empty()) return; auto it=o->sym.lower_bound(off>=64?off-64:0); std::vector<std::pair<u32,Cell>> keep;
  while (it!=o->sym.end() && it->first<off+n) { u32 a=it->first, b=a+it->second.size; if (b<=off) { ++it; continue; } if (a<off||b>off+n) { Cell c=it->second; if (c.v.k!=KBV) unsup("partial overwrite of an exact-real cell"); for (u32 k=a;k<b;k++) if (k<off||k>=off+n) { u32 bi=k-a; Val bv=VBV(simp(Z3_mk_extract(Z,bi*8+7,bi*8,c.v.e)),8); if (bv.k==KINT) { o->b[k]=bv.u; } else keep.push_back({k,Cell{bv,1}}); } }
    it=o->sym.erase(it); }
  for (auto& k:keep) o->sym[k.first]=k.second; }
static void storeScalar(State& S, u64 p, const Val& v, u32 n) {
  u32 id,off; access(S,p,n,id,off,true); Obj* o=S.mem.getW(id); splitCell(o,off,n); if (!o->allInit) for (u32 i=0;i<n;i++) o->init[off+i]=true;
  switch (v.k) { case KINT: { u64 x=v.u; for (u32 i=0;i<n;i++) o->b[off+i]= i<8 ? (u8)(x>>(8*i)) : 0; break; }
    case KDBL: { if (n==8) memcpy(&o->b[off],&v.d,8); else { float f=(float)v.d; memcpy(&o->b[off],&f,4);} break; }
    case KBV: { Val c=v; if (c.w<n*8) c=VBV(simp(Z3_mk_zero_ext(Z,n*8-c.w,c.e)),n*8); o->sym[off]=Cell{c,n}; break; }
    case KREAL: if (n!=8) unsup("real store of odd size"); o->sym[off]=Cell{v,8}; break;
    default: unsup("store of undef"); } }
static Val freshByte() { return VBV(fresh("uninit",bvs(8)),8); }
static Val loadScalar(State& S, u64 p, u32 n, unsigned w, bool isD, bool isF) {
  u32 id,off; const Obj* o=access(S,p,n,id,off,false);
  auto fin=[&](Val v)->Val { if (isD) { if (v.k==KINT) { double d; memcpy(&d,&v.u,8); return VD(d);} return v; } if (isF) { if (v.k==KINT) { u32 x=v.u; float f; memcpy(&f,&x,4); return VF(f);} return v; } if (v.k==KINT) return VI(v.u,w); if (v.k==KDBL) { return VI(*(u64*)&v.d,w);} if (v.k==KBV&&v.w!=w) return VBV(simp(Z3_mk_extract(Z,w-1,0,v.e)),w); return v; };
  bool ini=true; if (!o->allInit) for (u32 i=0;i<n;i++) if (!o->init[off+i]) { ini=false; break; }
  bool symhit=false; if (!o->sym.empty()) { auto it=o->sym.find(off); if (it!=o->sym.end()&&it->second.size==n) return fin(it->second.v); it=o->sym.lower_bound(off>=64?off-64:0); for (;it!=o->sym.end()&&it->first<off+n;++it) if (it->first+it->second.size>off) { symhit=true; break; } }
  if (!symhit && ini) { if (n<=8) { u64 x=0; memcpy(&x,&o->b[off],n); return fin(VI(x,n*8)); } if (n==16) { u64 lo,hi; memcpy(&lo,&o->b[off],8); memcpy(&hi,&o->b[off+8],8); return VBV(simp(Z3_mk_concat(Z,mkBV(hi,64),mkBV(lo,64))),128); } unsup("wide load"); }
  if (!ini && !symhit) { bool none=true; for (u32 i=0;i<n;i++) if (o->init[off+i]) none=false; if (none&&isD&&REALMODE) { Val v; v=VR(Rat{fresh("uninit",SReal),{}}); storeScalar(S,p,v,8); return v; } }
  if (symhit && REALMODE) { auto it=o->sym.lower_bound(off>=64?off-64:0); for (;it!=o->sym.end()&&it->first<off+n;++it) if (it->first+it->second.size>off && it->second.v.k==KREAL) unsup("partial load of an exact-real cell"); }
  Obj* ow=S.mem.getW(id); Z3_ast acc=nullptr; 
  for (int i=(int)n-1;i>=0;i--) { u32 k=off+i; Z3_ast by; auto it=ow->sym.upper_bound(k); bool got=false; if (it!=ow->sym.begin()) { --it; if (it->first<=k&&it->first+it->second.size>k) { u32 bi=k-it->first; by= it->second.size==1? it->second.v.e : Z3_mk_extract(Z,bi*8+7,bi*8,it->second.v.e); got=true; } }
    if (!got) { if (!ow->allInit&&!ow->init[k]) { Val fb=freshByte(); ow->sym[k]=Cell{fb,1}; ow->init[k]=true; by=fb.e; } else by=mkBV(ow->b[k],8); }
    acc=acc?Z3_mk_concat(Z,acc,by):by; }
  return fin(VBV(simp(acc),n*8)); }
static Val zeroOf(Type* t) { if (t->isIntegerTy()) { unsigned w=t->getIntegerBitWidth(); if (w<=64) return VI(0,w); Val x; x.k=KBV; x.w=w; x.e=Z3_mk_numeral(Z,"0",bvs(w)); return x; } if (t->isPointerTy()) return VI(0,64); if (t->isDoubleTy()) return VD(0); if (t->isFloatTy()) return VF(0);
  std::vector<Val> v; if (auto* s=dyn_cast<StructType>(t)) for (auto* e:s->elements()) v.push_back(zeroOf(e)); else if (auto* a=dyn_cast<ArrayType>(t)) { Val z=zeroOf(a->getElementType()); v.assign(a->getNumElements(),z);} else if (auto* q=dyn_cast<FixedVectorType>(t)) { Val z=zeroOf(q->getElementType()); v.assign(q->getNumElements(),z);} else if (t->isX86_FP80Ty()||t->isFP128Ty()) return VD(0); else unsup("zeroOf type"); return VAgg(v); }
static Val loadT(State& S, u64 p, Type* t) { if (t->isIntegerTy()) { unsigned w=t->getIntegerBitWidth(); u32 n=(w+7)/8; Val v=loadScalar(S,p,n,n*8,false,false); if (w!=n*8) { if (v.k==KINT) return VI(v.u,w); if (v.k==KREAL) return v; return VBV(simp(Z3_mk_extract(Z,w-1,0,toBV(v))),w);} return v; } if (t->isPointerTy()) return loadScalar(S,p,8,64,false,false); if (t->isDoubleTy()) return loadScalar(S,p,8,64,true,false); if (t->isFloatTy()) return loadScalar(S,p,4,32,false,true);
  std::vector<Val> v; if (auto* s=dyn_cast<StructType>(t)) { auto* L=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) v.push_back(loadT(S,p+L->getElementOffset(i),s->getElementType(i))); } else if (auto* a=dyn_cast<ArrayType>(t)) { u64 sz=DL->getTypeAllocSize(a->getElementType()); for (u64 i=0;i<a->getNumElements();i++) v.push_back(loadT(S,p+i*sz,a->getElementType())); } else if (auto* q=dyn_cast<FixedVectorType>(t)) { u64 sz=DL->getTypeStoreSize(q->getElementType()); for (u64 i=0;i<q->getNumElements();i++) v.push_back(loadT(S,p+i*sz,q->getElementType())); } else unsup("load of type"); return VAgg(v); }
static void storeT(State& S, u64 p, const Val& v, Type* t) { if (t->isIntegerTy()) { storeScalar(S,p,v,(t->getIntegerBitWidth()+7)/8); return; } if (t->isPointerTy()||t->isDoubleTy()) { storeScalar(S,p,v,8); return; } if (t->isFloatTy()) { storeScalar(S,p,v,4); return; }
  if (auto* s=dyn_cast<StructType>(t)) { auto* L=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) storeT(S,p+L->getElementOffset(i),v.a->v[i],s->getElementType(i)); } else if (auto* a=dyn_cast<ArrayType>(t)) { u64 sz=DL->getTypeAllocSize(a->getElementType()); for (u64 i=0;i<a->getNumElements();i++) storeT(S,p+i*sz,v.a->v[i],a->getElementType()); } else if (auto* q=dyn_cast<FixedVectorType>(t)) { u64 sz=DL->getTypeStoreSize(q->getElementType()); for (u64 i=0;i<q->getNumElements();i++) storeT(S,p+i*sz,v.a->v[i],q->getElementType()); } else unsup("store of type"); }
static void memCopy(State& S, u64 d, u64 s, u64 n) { if (!n||d==s) return; u32 si,so,di,dofs; const Obj* a=access(S,s,n,si,so,false); access(S,d,n,di,dofs,true);
  std::vector<u8> bytes(a->b.begin()+so,a->b.begin()+so+n); std::vector<bool> ini; if (!a->allInit) ini.assign(a->init.begin()+so,a->init.begin()+so+n); std::vector<std::pair<u32,Cell>> cells;
  for (auto it=a->sym.lower_bound(so>=64?so-64:0); it!=a->sym.end()&&it->first<so+n; ++it) { u32 x=it->first,y=x+it->second.size; if (y<=so) continue; if (x>=so&&y<=so+n) cells.push_back({x-so,it->second}); else { if (it->second.v.k!=KBV) unsup("partial copy of an exact-real cell"); for (u32 k=std::max(x,so);k<std::min(y,(u32)(so+n));k++) { Val bv=VBV(simp(Z3_mk_extract(Z,(k-x)*8+7,(k-x)*8,it->second.v.e)),8); if (bv.k==KINT) bytes[k-so]=bv.u; else cells.push_back({k-so,Cell{bv,1}}); } } }
  Obj* o=S.mem.getW(di); splitCell(o,dofs,n); memcpy(&o->b[dofs],bytes.data(),n); if (!o->allInit) { for (u64 i=0;i<n;i++) o->init[dofs+i]= ini.empty()?true:(bool)ini[i]; } else if (!ini.empty()) { bool any=false; for (bool b:ini) if (!b) any=true; if (any) { o->allInit=false; o->init.assign(o->size,true); for (u64 i=0;i<n;i++) o->init[dofs+i]=ini[i]; } }
  for (auto& c:cells) o->sym[dofs+c.first]=c.second; }
static void memSet(State& S, u64 d, const Val& v, u64 n) { if (!n) return; if (v.k!=KINT) { for (u64 i=0;i<n;i++) storeScalar(S,d+i,v,1); return; } u32 id,off; access(S,d,n,id,off,true); Obj* o=S.mem.getW(id); splitCell(o,off,n); memset(&o->b[off],(int)v.u,n); if (!o->allInit) { if (off==0&&n==o->size) { o->allInit=true; o->init.clear(); } else for (u64 i=0;i<n;i++) o->init[off+i]=true; } }
static std::string cstr(State& S, u64 p) { std::string r; for (int i=0;i<4096;i++) { Val v=loadScalar(S,p+i,1,8,false,false); v=concretize(S,v); if (!v.u) break; r+=(char)v.u; } return r; }

// ---------------------------------------------------------------- constants & compilation
static u32 globalId(const GlobalVariable* g);
static PFunc* pf(const Function* F) { auto it=FMAP.find(F); if (it!=FMAP.end()) return it->second; PFunc* p=new PFunc; p->F=F; p->id=FUNCS.size(); p->name=dem(F->getName().str()); FUNCS.push_back(p); FMAP[F]=p;
  if (auto* sp=F->getSubprogram()) { std::string fn=sp->getFilename().str(), dir=sp->getDirectory().str(); std::string full= fn.size()&&fn[0]=='/'?fn:dir+"/"+fn; if (full.compare(0,REPO.size()+1,REPO+"/")==0 && full.find("/nlohmann/")==std::string::npos) p->inRepo=true; } return p; }
static Val constVal(const Constant* c);
static u64 fnPtr(const Function* F) { return ((u64)(FUNBASE+pf(F)->id))<<32; }
static Val gepConst(const GEPOperator* g) { APInt off(64,0); Val b=constVal(cast<Constant>(g->getPointerOperand())); if (!g->accumulateConstantOffset(*DL,off)) unsup("const gep"); return VI(b.u+off.getSExtValue(),64); }
static Val constVal(const Constant* c) {
  Type* t=c->getType();
  if (auto* i=dyn_cast<ConstantInt>(c)) { if (i->getBitWidth()<=64) return VI(i->getZExtValue(),i->getBitWidth()); SmallString<64> s; i->getValue().toString(s,10,false); Val x; x.k=KBV; x.w=i->getBitWidth(); x.e=Z3_mk_numeral(Z,s.c_str(),bvs(x.w)); return x; }
  if (auto* f=dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy()) return VD(f->getValueAPF().convertToDouble()); if (t->isFloatTy()) return VF(f->getValueAPF().convertToFloat()); APFloat a=f->getValueAPF(); bool l; a.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l); return VD(a.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return VI(0,64); if (isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* F=dyn_cast<Function>(c)) return VI(fnPtr(F),64); if (auto* g=dyn_cast<GlobalVariable>(c)) return VI(mkptr(globalId(g)),64); if (auto* a=dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (auto* a=dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i=0;i<a->getNumOperands();i++) v.push_back(constVal(a->getOperand(i))); return VAgg(v); }
  if (auto* a=dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i=0;i<a->getNumElements();i++) v.push_back(constVal(a->getElementAsConstant(i))); return VAgg(v); }
  if (auto* e=dyn_cast<ConstantExpr>(c)) { switch (e->getOpcode()) { case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(e)); case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v=constVal(e->getOperand(0)); if (t->isIntegerTy()&&v.k==KINT) return VI(v.u,t->getIntegerBitWidth()); return v; }
      case Instruction::Sub: { Val a=constVal(e->getOperand(0)),b=constVal(e->getOperand(1)); return VI(a.u-b.u,a.w); } case Instruction::Add: { Val a=constVal(e->getOperand(0)),b=constVal(e->getOperand(1)); return VI(a.u+b.u,a.w); } case Instruction::Trunc: { Val a=constVal(e->getOperand(0)); return VI(a.u,t->getIntegerBitWidth()); }
      case Instruction::ICmp: { Val a=constVal(e->getOperand(0)),b=constVal(e->getOperand(1)); bool r=e->getPredicate()==CmpInst::ICMP_EQ? a.u==b.u : a.u!=b.u; return VI(r,1); } default: break; } }
  if (isa<ConstantTokenNone>(c)) return VI(0,1);
  std::string s; raw_string_ostream os(s); c->print(os); unsup("constant: "+s.substr(0,200)); }
static State* INIT;
static void initGlobal(u64 p, const Constant* c) { Type* t=c->getType(); if (isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return; if (auto* s=dyn_cast<StructType>(t)) { auto* L=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) initGlobal(p+L->getElementOffset(i),c->getAggregateElement(i)); return; }
  if (auto* a=dyn_cast<ArrayType>(t)) { u64 sz=DL->getTypeAllocSize(a->getElementType()); for (u64 i=0;i<a->getNumElements();i++) initGlobal(p+i*sz,c->getAggregateElement(i)); return; } 
  storeT(*INIT,p,constVal(c),t); }
static std::vector<const GlobalVariable*> GPENDING;
static u32 globalId(const GlobalVariable* g) { auto it=GMAP.find(g); if (it!=GMAP.end()) return it->second; u64 sz=g->getValueType()->isSized()?(u64)DL->getTypeAllocSize(g->getValueType()):256; if (g->isDeclaration()) sz=std::max<u64>(sz,512); u32 id=INIT->mem.alloc(sz,2,true); INIT->mem.getW(id)->name=g->getName().str(); GMAP[g]=id; GPENDING.push_back(g); return id; }
static int cidx(const Constant* c) { auto it=CMAP.find(c); if (it!=CMAP.end()) return it->second; Val v=constVal(c); CONSTS.push_back(v); int i=CONSTS.size()-1; CMAP[c]=i; return i; }
typedef std::function<Val(State&,std::vector<Val>&,const PInst&)> Ext;
static std::unordered_map<std::string,Ext> EXT; static std::unordered_map<const Function*,Ext*> EXTC;

static void compile(PFunc* p) {
  p->compiled=true; const Function* F=p->F; DenseMap<const Value*,int> reg; DenseMap<const BasicBlock*,int> bi; int n=0; for (auto& a:F->args()) { reg[&a]=n; p->args.push_back(n++); } int k=0; for (auto& b:*F) { bi[&b]=k++; for (auto& i:b) if (!i.getType()->isVoidTy()) reg[&i]=n++; } p->nregs=n;
  auto opnd=[&](const Value* v)->int { if (auto* c=dyn_cast<Constant>(v)) { return -(cidx(c)+1); } if (isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)) return -(cidx(ConstantInt::get(Type::getInt1Ty(F->getContext()),0))+1); auto it=reg.find(v); if (it==reg.end()) unsup("operand"); return it->second; };
  p->bb.resize(k); for (auto& b:*F) { auto& B=p->bb[bi[&b]]; for (auto& I:b) { if (isa<DbgInfoIntrinsic>(I)) continue; PInst q; q.I=&I; q.op=I.getOpcode(); q.dst=I.getType()->isVoidTy()?-1:reg[&I]; q.gid=NEXTGID++; 
      { std::string fn; unsigned ln=0; if (p->inRepo) if (auto& d=I.getDebugLoc()) { fn=d->getFilename().str(); ln=d.getLine(); } GIDLINE.push_back({fn,ln}); }
      if (auto* ph=dyn_cast<PHINode>(&I)) { B.nphi++; for (unsigned i=0;i<ph->getNumIncomingValues();i++) { q.aux.push_back(bi[ph->getIncomingBlock(i)]); q.ops.push_back(opnd(ph->getIncomingValue(i))); } }
      else if (auto* g=dyn_cast<GetElementPtrInst>(&I)) { if (g->getType()->isVectorTy()) { q.op=9999; B.ins.push_back(q); continue; } q.ops.push_back(opnd(g->getPointerOperand())); u64 off=0; for (auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi) { Value* ix=gi.getOperand(); if (auto* st=gi.getStructTypeOrNull()) { off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci=dyn_cast<ConstantInt>(ix)) off+=(u64)ci->getSExtValue()*sz; else { q.ops.push_back(opnd(ix)); q.aux.push_back((int)sz); } } } q.imm=off; }
      else if (auto* br=dyn_cast<BranchInst>(&I)) { if (br->isConditional()) q.ops.push_back(opnd(br->getCondition())); for (unsigned i=0;i<br->getNumSuccessors();i++) q.aux.push_back(bi[br->getSuccessor(i)]); }
      else if (auto* sw=dyn_cast<SwitchInst>(&I)) { q.ops.push_back(opnd(sw->getCondition())); q.aux.push_back(bi[sw->getDefaultDest()]); for (auto& c:sw->cases()) { q.ops.push_back(opnd(c.getCaseValue())); q.aux.push_back(bi[c.getCaseSuccessor()]); } }
      else if (auto* cb=dyn_cast<CallBase>(&I)) { if (auto* inv=dyn_cast<InvokeInst>(&I)) { q.aux.push_back(bi[inv->getNormalDest()]); q.aux.push_back(bi[inv->getUnwindDest()]); } q.ops.push_back(opnd(cb->getCalledOperand())); for (auto& a:cb->args()) q.ops.push_back(opnd(a)); const Value* cv=cb->getCalledOperand()->stripPointerCasts(); if (auto* al=dyn_cast<GlobalAlias>(cv)) cv=al->getAliasee()->stripPointerCasts(); if (auto* cf=dyn_cast<Function>(cv)) q.pf=pf(cf); }
      else if (isa<LandingPadInst>(&I)) {}
      else for (auto& o:I.operands()) q.ops.push_back(opnd(o));
      if (I.getType()->isIntegerTy()) q.w=I.getType()->getIntegerBitWidth(); else if (I.getType()->isPointerTy()) q.w=64;
      B.ins.push_back(std::move(q)); } }
  for (auto* g:std::vector<const GlobalVariable*>(GPENDING)) (void)g; }

// globals created lazily after start must be present in every state: create all up front
static void setupGlobals() { for (auto& g:M->globals()) globalId(&g); for (size_t i=0;i<GPENDING.size();i++) { auto* g=GPENDING[i]; if (g->hasInitializer()) initGlobal(mkptr(GMAP[g]),g->getInitializer()); } for (auto* g:GPENDING) if (g->isConstant()&&g->hasInitializer()) INIT->mem.getW(GMAP[g])->ro=true; }

// ---------------------------------------------------------------- calls & exceptions
static void pushFrame(State& S, PFunc* p, const std::vector<Val>& args, const PInst* call) { if (!p->compiled) compile(p); if (S.st.size()>400) unsup("call depth"); if (p->id<(1<<16)) SH->fcov[p->id]=1; if (!S.st.empty()) S.st.back().callInst=call; S.st.emplace_back(); Frame& f=S.st.back(); f.f=p; f.r.resize(p->nregs); for (size_t i=0;i<p->args.size()&&i<args.size();i++) f.r[p->args[i]]=args[i]; 
  // byval copies
  for (auto& a:p->F->args()) if (a.hasByValAttr()) { u64 sz=DL->getTypeAllocSize(a.getParamByValType()); u32 id=S.mem.alloc(sz,1,true); memCopy(S,mkptr(id),f.r[p->args[a.getArgNo()]].u,sz); f.allocas.push_back(id); f.r[p->args[a.getArgNo()]]=VI(mkptr(id),64); }
  if (p->F->isVarArg()) {} }
static void popFrame(State& S) { for (u32 a:S.st.back().allocas) S.mem.drop(a); S.st.pop_back(); }
static std::string objName(State& S, u64 p) { const Obj* o=S.mem.get(p>>32); return o?o->name:""; }
static const char* stdBase(const std::string& n) { static const std::map<std::string,const char*> h={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt12domain_error","_ZTISt11logic_error"}}; auto it=h.find(n); return it==h.end()?nullptr:it->second; }
static std::map<std::string,u64> TINAMED; // synthetic typeinfo for library-thrown exceptions: name -> id value
static bool tiMatch(State& S, u64 thrown, u64 want) { for (int d=0;d<10&&thrown;d++) { if (thrown==want) return true; std::string n=objName(S,thrown), w=objName(S,want); if (!n.empty()&&n==w) return true; const Obj* o=S.mem.get(thrown>>32); if (!o) return false; auto* g=M->getNamedGlobal(n); if (!g||g->isDeclaration()) { const char* b=stdBase(n); std::string cur=n; while (b) { if (w==b) return true; b=stdBase(b); } return false; } Val vt=loadScalar(S,thrown,8,64,false,false); std::string vn=objName(S,vt.u); if (vn.find("__si_class_type_info")!=std::string::npos) { thrown=loadScalar(S,thrown+16,8,64,false,false).u; continue; } if (vn.find("__vmi_class_type_info")!=std::string::npos) { u64 nb=loadScalar(S,thrown+20,4,32,false,false).u; for (u64 i=0;i<nb;i++) if (tiMatch(S,loadScalar(S,thrown+24+16*i,8,64,false,false).u,want)) return true; return false; } return false; } return false; }
static void unwind(State& S, u64 exc, u64 ti) { // top frame is executing a call/invoke that threw
  S.curExc=exc; S.curTI=ti; bool first=true;
  while (!S.st.empty()) { Frame& f=S.st.back(); const PInst* ci= first? &f.f->bb[f.bb].ins[f.ip] : f.callInst; first=false;
    if (ci && ci->op==Instruction::Invoke) { auto* inv=cast<InvokeInst>(ci->I); auto* lp=inv->getLandingPadInst(); bool enter=lp->isCleanup(); u64 sel=0; for (unsigned i=0;i<lp->getNumClauses();i++) { if (lp->isCatch(i)) { Val w=CONSTS[cidx(lp->getClause(i))]; if (w.u==0||tiMatch(S,ti,w.u)) { enter=true; sel= w.u==0?1:(w.u>>32)+2; break; } } else { enter=true; sel=(u64)-1; } }
      if (enter) { u32 from=f.bb; f.prev=from; f.bb=ci->aux[1]; f.ip=0; // phis in landing block
        PBlock& B=f.f->bb[f.bb]; std::vector<Val> tmp; for (u32 i=0;i<B.nphi;i++) { auto& ph=B.ins[i]; for (size_t j=0;j<ph.aux.size();j++) if ((u32)ph.aux[j]==from) { int o=ph.ops[j]; tmp.push_back(o>=0?f.r[o]:CONSTS[-o-1]); break; } } for (u32 i=0;i<B.nphi;i++) f.r[B.ins[i].dst]=tmp[i]; f.ip=B.nphi;
        PInst& L=B.ins[f.ip]; if (L.op!=Instruction::LandingPad) unsup("landing pad"); f.r[L.dst]=VAgg({VI(exc,64),VI(sel,32)}); f.ip++; return; } }
    popFrame(S); }
  // uncaught
  S.st.emplace_back(); S.st.back().f=pf(&*M->begin()); std::string n=objName(S,ti); ensureModel(S); report(S,"exception","uncaught exception "+dem(n),nullptr,S.model); throw PathEnd{}; }
static u64 tiByName(State& S, const std::string& n) { if (auto* g=M->getNamedGlobal(n)) return mkptr(GMAP[g]); auto it=TINAMED.find(n); if (it!=TINAMED.end()) return it->second; unsup("no synthetic typeinfo "+n); }
struct Thrown { u64 exc, ti; };
static void throwStd(State& S, const std::string& tin) { u32 id=S.mem.alloc(64,0,true); throw Thrown{mkptr(id),tiByName(S,tin)}; }

// ---------------------------------------------------------------- integer ops
static Val ibin(State& S, unsigned op, const Val& a, const Val& b, unsigned w) {
  if (a.k==KINT&&b.k==KINT) { u64 x=a.u,y=b.u; switch (op) { case Instruction::Add: return VI(x+y,w); case Instruction::Sub: return VI(x-y,w); case Instruction::Mul: return VI(x*y,w); case Instruction::And: return VI(x&y,w); case Instruction::Or: return VI(x|y,w); case Instruction::Xor: return VI(x^y,w); case Instruction::Shl: return y>=w?VI(0,w):VI(x<<y,w); case Instruction::LShr: return y>=w?VI(0,w):VI(x>>y,w); case Instruction::AShr: return VI((u64)(sx(x,w)>>(y>=w?w-1:y)),w);
      case Instruction::UDiv: if (!y) memErr(S,"integer division by zero"); return VI(x/y,w); case Instruction::URem: if (!y) memErr(S,"integer division by zero"); return VI(x%y,w); case Instruction::SDiv: if (!y) memErr(S,"integer division by zero"); if (sx(y,w)==-1) return VI(0-x,w); return VI((u64)(sx(x,w)/sx(y,w)),w); case Instruction::SRem: if (!y) memErr(S,"integer division by zero"); if (sx(y,w)==-1) return VI(0,w); return VI((u64)(sx(x,w)%sx(y,w)),w); } }
  if (a.k==KREAL||b.k==KREAL) unsup("bit manipulation of an exact real");
  Z3_ast x=toBV(a),y=toBV(b),r=nullptr; 
  if (w==1) { Z3_ast p=toBool(a),q=toBool(b); switch (op) { case Instruction::And: return VBool(mkAnd(p,q)); case Instruction::Or: return VBool(mkOr(p,q)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return VBool(Z3_mk_xor(Z,p,q)); } }
  switch (op) { case Instruction::Add: r=Z3_mk_bvadd(Z,x,y); break; case Instruction::Sub: r=Z3_mk_bvsub(Z,x,y); break; case Instruction::Mul: r=Z3_mk_bvmul(Z,x,y); break; case Instruction::And: r=Z3_mk_bvand(Z,x,y); break; case Instruction::Or: r=Z3_mk_bvor(Z,x,y); break; case Instruction::Xor: r=Z3_mk_bvxor(Z,x,y); break; case Instruction::Shl: r=Z3_mk_bvshl(Z,x,y); break; case Instruction::LShr: r=Z3_mk_bvlshr(Z,x,y); break; case Instruction::AShr: r=Z3_mk_bvashr(Z,x,y); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if (w<=64 && branch(S,Z3_mk_eq(Z,y,mkBV(0,w)))) memErr(S,"integer division by zero"); r= op==Instruction::UDiv?Z3_mk_bvudiv(Z,x,y):op==Instruction::URem?Z3_mk_bvurem(Z,x,y):op==Instruction::SDiv?Z3_mk_bvsdiv(Z,x,y):Z3_mk_bvsrem(Z,x,y); break; default: unsup("int op"); }
  return VBV(simp(r),w); }
static Val icmp(unsigned pred, const Val& a, const Val& b) {
  if (a.k==KINT&&b.k==KINT) { u64 x=a.u,y=b.u; int64_t p=sx(x,a.w),q=sx(y,a.w); bool r=false; switch (pred) { case CmpInst::ICMP_EQ: r=x==y; break; case CmpInst::ICMP_NE: r=x!=y; break; case CmpInst::ICMP_UGT: r=x>y; break; case CmpInst::ICMP_UGE: r=x>=y; break; case CmpInst::ICMP_ULT: r=x<y; break; case CmpInst::ICMP_ULE: r=x<=y; break; case CmpInst::ICMP_SGT: r=p>q; break; case CmpInst::ICMP_SGE: r=p>=q; break; case CmpInst::ICMP_SLT: r=p<q; break; case CmpInst::ICMP_SLE: r=p<=q; break; } return VI(r,1); }
  if (a.k==KREAL||b.k==KREAL) { if (a.k==KREAL&&b.k==KREAL&&a.r==b.r&&(pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_NE)) return VI(pred==CmpInst::ICMP_EQ,1); return VBool(fresh("bitcmp",SBool)); } // over-approximated: the bits of an exact real are unconstrained
  Z3_ast x=toBV(a),y=toBV(b),r; switch (pred) { case CmpInst::ICMP_EQ: r=Z3_mk_eq(Z,x,y); break; case CmpInst::ICMP_NE: r=mkNot(Z3_mk_eq(Z,x,y)); break; case CmpInst::ICMP_UGT: r=Z3_mk_bvugt(Z,x,y); break; case CmpInst::ICMP_UGE: r=Z3_mk_bvuge(Z,x,y); break; case CmpInst::ICMP_ULT: r=Z3_mk_bvult(Z,x,y); break; case CmpInst::ICMP_ULE: r=Z3_mk_bvule(Z,x,y); break; case CmpInst::ICMP_SGT: r=Z3_mk_bvsgt(Z,x,y); break; case CmpInst::ICMP_SGE: r=Z3_mk_bvsge(Z,x,y); break; case CmpInst::ICMP_SLT: r=Z3_mk_bvslt(Z,x,y); break; case CmpInst::ICMP_SLE: r=Z3_mk_bvsle(Z,x,y); break; default: unsup("icmp"); } return VBool(r); }
static Val fbin(State& S, unsigned op, const Val& a, const Val& b) {
  if (a.k==KDBL&&b.k==KDBL&&(!REALMODE||a.w==32)) { double r; switch (op) { case Instruction::FAdd: r=a.d+b.d; break; case Instruction::FSub: r=a.d-b.d; break; case Instruction::FMul: r=a.d*b.d; break; case Instruction::FDiv: r=a.d/b.d; break; case Instruction::FRem: r=fmod(a.d,b.d); break; default: unsup("fop"); } return a.w==32?VF(r):VD(r); }
  if (REALMODE) switch (op) { case Instruction::FAdd: return rAdd(a,b,false); case Instruction::FSub: return rAdd(a,b,true); case Instruction::FMul: return rMul(a,b); case Instruction::FDiv: return rDiv(S,a,b); default: unsup("real frem"); }
  if (a.w==32) unsup("symbolic float"); Z3_ast x=toFP(a),y=toFP(b),r; switch (op) { case Instruction::FAdd: r=Z3_mk_fpa_add(Z,RNE(),x,y); break; case Instruction::FSub: r=Z3_mk_fpa_sub(Z,RNE(),x,y); break; case Instruction::FMul: r=Z3_mk_fpa_mul(Z,RNE(),x,y); break; case Instruction::FDiv: r=Z3_mk_fpa_div(Z,RNE(),x,y); break; default: unsup("fp frem"); } return fromFP(r); }
static Val castOp(State& S, unsigned op, const Val& a, Type* from, Type* to) {
  if (to->isVectorTy() && from->isVectorTy() && op!=Instruction::BitCast) { std::vector<Val> v; for (auto& x:a.a->v) v.push_back(castOp(S,op,x,cast<VectorType>(from)->getElementType(),cast<VectorType>(to)->getElementType())); return VAgg(v); }
  unsigned w= to->isIntegerTy()?to->getIntegerBitWidth():64;
  switch (op) {
    case Instruction::Trunc: if (a.k==KINT) return VI(a.u,w); return VBV(simp(Z3_mk_extract(Z,w-1,0,toBV(a))),w);
    case Instruction::ZExt: if (a.k==KINT&&w<=64) return VI(a.u,w); { Z3_ast x=toBV(a); return VBV(simp(Z3_mk_zero_ext(Z,w-a.w,x)),w); }
    case Instruction::SExt: if (a.k==KINT&&w<=64) return VI((u64)sx(a.u,a.w),w); return VBV(simp(Z3_mk_sign_ext(Z,w-a.w,toBV(a))),w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (a.k==KINT) return VI(a.u,w); return a;
    case Instruction::BitCast: { if (from==to) return a; if (to->isDoubleTy()) { if (a.k==KINT) { double d; memcpy(&d,&a.u,8); return VD(d);} if (a.k!=KAGG) return a; } if (to->isIntegerTy(64)&&from->isDoubleTy()) { if (a.k==KDBL) { u64 b; memcpy(&b,&a.d,8); return VI(b,64);} return a; } if (to->isFloatTy()&&a.k==KINT) { u32 x=a.u; float f; memcpy(&f,&x,4); return VF(f);} if (to->isIntegerTy(32)&&a.k==KDBL) { float f=(float)a.d; u32 x; memcpy(&x,&f,4); return VI(x,32);} 
      // generic: through memory
      u32 id=S.mem.alloc(DL->getTypeStoreSize(from),1,true); storeT(S,mkptr(id),a,from); Val r=loadT(S,mkptr(id),to); S.mem.drop(id); return r; }
    case Instruction::UIToFP: case Instruction::SIToFP: { Val c=a; if (a.k==KBV) { if (REALMODE||to->isFloatTy()) c=concretize(S,a); else { Z3_ast r= op==Instruction::SIToFP?Z3_mk_fpa_to_fp_signed(Z,RNE(),a.e,(Z3_sort)mkFPsort()):Z3_mk_fpa_to_fp_unsigned(Z,RNE(),a.e,(Z3_sort)mkFPsort()); return fromFP(r);} } double d= op==Instruction::SIToFP?(double)sx(c.u,c.w):(double)c.u; return to->isFloatTy()?VF(d):VD(d); }
    case Instruction::FPToSI: case Instruction::FPToUI: { if (a.k==KDBL) { double d=std::trunc(a.d); bool inr= op==Instruction::FPToSI? (d>=-std::ldexp(1,w-1)&&d<std::ldexp(1,w-1)) : (d>-1&&d<std::ldexp(1,w)); if (!inr) failState(S,"ub","floating value out of range of the integer type it is converted to"); return VI(op==Instruction::FPToSI?(u64)(int64_t)d:(u64)d,w); }
      if (!REALMODE) { Z3_ast f=toFP(a); double lo= op==Instruction::FPToSI?-std::ldexp(1,w-1)-1:-1.0, hi= op==Instruction::FPToSI?std::ldexp(1,w-1):std::ldexp(1,w); Z3_ast in=toBool(fcmp(S,FCmpInst::FCMP_OLT,a,VD(hi))); Z3_ast in2= w<=32||op==Instruction::FPToUI? toBool(fcmp(S,FCmpInst::FCMP_OGT,a,VD(lo))) : toBool(fcmp(S,FCmpInst::FCMP_OGE,a,VD(-std::ldexp(1,63)))); if (!branch(S,mkAnd(in,in2))) failState(S,"ub","floating value out of range of the integer type it is converted to"); Z3_ast rtz=Z3_mk_fpa_rtz(Z); return VBV(simp(op==Instruction::FPToSI?Z3_mk_fpa_to_sbv(Z,rtz,f,w):Z3_mk_fpa_to_ubv(Z,rtz,f,w)),w); }
      // real: enumerate the integer part
      ensureModel(S); if (!S.model) unsup("fptosi without model"); double d=std::trunc(evalD(S.model,ratTerm(*a.r))); Rat r=*a.r; Z3_ast lo= d>0||d==0? cmpReal(S,ratOf(d),r,2):cmpReal(S,ratOf(d-1),r,1); Z3_ast hi= d>=0? cmpReal(S,r,ratOf(d+1),1):cmpReal(S,r,ratOf(d),2); if (d==0) lo=cmpReal(S,ratOf(-1),r,1); auto& cnt=S.excCnt[(u32)(uintptr_t)a.r->num]; if (++cnt>64) unsup("fptosi: too many values"); if (!branch(S,mkAnd(lo,hi))) throw Retry{}; return VI((u64)(int64_t)d,w); }
    case Instruction::FPExt: if (a.k!=KDBL) unsup("fpext sym"); return VD(a.d); case Instruction::FPTrunc: if (a.k!=KDBL) unsup("fptrunc of a symbolic double"); return VF(a.d);
  } unsup("cast"); }

static void jump(Frame& f, u32 to);
static void finishCall(State& S, const PInst& q, const Val& r);
#include "ext.inc"

// ---------------------------------------------------------------- main loop
static void doReturn(State& S, const Val* rv) { popFrame(S); if (S.st.empty()) throw PathEnd{}; Frame& f=S.st.back(); const PInst* ci=f.callInst; if (!ci) unsup("return without call"); if (ci->dst>=0&&rv) f.r[ci->dst]=*rv; if (ci->op==Instruction::Invoke) { f.prev=f.bb; f.bb=ci->aux[0]; f.ip=0; PBlock& B=f.f->bb[f.bb]; if (B.nphi) { std::vector<Val> tmp; for (u32 i=0;i<B.nphi;i++) { auto& ph=B.ins[i]; for (size_t j=0;j<ph.aux.size();j++) if ((u32)ph.aux[j]==f.prev) { int o=ph.ops[j]; tmp.push_back(o>=0?f.r[o]:CONSTS[-o-1]); break; } } for (u32 i=0;i<B.nphi;i++) f.r[B.ins[i].dst]=tmp[i]; f.ip=B.nphi; } } else f.ip++; }
static void jump(Frame& f, u32 to) { u32 from=f.bb; f.prev=from; f.bb=to; PBlock& B=f.f->bb[to]; f.ip=B.nphi; if (B.nphi) { Val tmp[64]; if (B.nphi>64) unsup("too many phis"); for (u32 i=0;i<B.nphi;i++) { auto& ph=B.ins[i]; bool ok=false; for (size_t j=0;j<ph.aux.size();j++) if ((u32)ph.aux[j]==from) { int o=ph.ops[j]; tmp[i]=o>=0?f.r[o]:CONSTS[-o-1]; ok=true; break; } if (!ok) unsup("phi"); } for (u32 i=0;i<B.nphi;i++) f.r[B.ins[i].dst]=tmp[i]; } }
static void finishCall(State& S, const PInst& q, const Val& r) { Frame& f=S.st.back(); if (q.dst>=0) f.r[q.dst]=r; if (q.op==Instruction::Invoke) jump(f,q.aux[0]); else f.ip++; }

static Val vecMap2(const Val& a,const Val& b,const std::function<Val(const Val&,const Val&)>& fn){ if (a.k==KAGG) { std::vector<Val> v; for (size_t i=0;i<a.a->v.size();i++) v.push_back(fn(a.a->v[i],b.a->v[i])); return VAgg(v);} return fn(a,b); }

static void step(State& S) {
  Frame& f=S.st.back(); const PInst& q=f.f->bb[f.bb].ins[f.ip]; S.insts++;
  if (f.f->inRepo && q.gid<(1u<<21)) SH->icov[q.gid]=1;
  auto V=[&](int i)->const Val& { int o=q.ops[i]; return o>=0?f.r[o]:CONSTS[-o-1]; };
  switch (q.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      const Val&a=V(0),&b=V(1); if (a.k==KAGG) { unsigned w=cast<VectorType>(q.I->getType())->getElementType()->getIntegerBitWidth(); f.r[q.dst]=vecMap2(a,b,[&](const Val&x,const Val&y){return ibin(S,q.op,x,y,w);}); } else f.r[q.dst]=ibin(S,q.op,a,b,q.w); f.ip++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val r=vecMap2(V(0),V(1),[&](const Val&x,const Val&y){return fbin(S,q.op,x,y);}); S.st.back().r[q.dst]=r; f.ip++; return; }
    case Instruction::FNeg: { auto neg=[&](const Val&a)->Val{ if (a.k==KDBL) return a.w==32?VF(-a.d):VD(-a.d); if (REALMODE) return rNeg(a); return VBV(simp(Z3_mk_bvxor(Z,a.e,mkBV(1ull<<63,64))),64); }; const Val&a=V(0); if (a.k==KAGG) { std::vector<Val> v; for (auto&x:a.a->v) v.push_back(neg(x)); f.r[q.dst]=VAgg(v);} else f.r[q.dst]=neg(a); f.ip++; return; }
    case Instruction::ICmp: { unsigned p=cast<ICmpInst>(q.I)->getPredicate(); f.r[q.dst]=vecMap2(V(0),V(1),[&](const Val&x,const Val&y){return icmp(p,x,y);}); f.ip++; return; }
    case Instruction::FCmp: { unsigned p=cast<FCmpInst>(q.I)->getPredicate(); Val r=vecMap2(V(0),V(1),[&](const Val&x,const Val&y){return fcmp(S,p,x,y);}); f.r[q.dst]=r; f.ip++; return; }
    case Instruction::Br: { if (q.ops.empty()) { jump(f,q.aux[0]); return; } const Val&c=V(0); bool t; if (c.k==KINT) t=c.u; else t=branch(S,toBool(c)); jump(f,t?q.aux[0]:q.aux[1]); return; }
    case Instruction::Switch: { Val c=V(0); if (c.k==KINT) { for (size_t i=1;i<q.ops.size();i++) if (V(i).u==c.u) { jump(f,q.aux[i]); return; } jump(f,q.aux[0]); return; } for (size_t i=1;i<q.ops.size();i++) if (branch(S,Z3_mk_eq(Z,c.e,toBV(V(i))))) { jump(f,q.aux[i]); return; } jump(f,q.aux[0]); return; }
    case Instruction::Load: { u64 p=ptrOf(S,V(0)); f.r[q.dst]=loadT(S,p,q.I->getType()); f.ip++; return; }
    case Instruction::Store: { u64 p=ptrOf(S,V(1)); storeT(S,p,V(0),q.I->getOperand(0)->getType()); f.ip++; return; }
    case Instruction::GetElementPtr: { Val b=V(0); u64 off=q.imm; bool symb=b.k!=KINT; Z3_ast e=nullptr; for (size_t i=1;i<q.ops.size();i++) { const Val&x=V(i); if (x.k==KINT) off+=(u64)sx(x.u,x.w)*(u64)(int64_t)q.aux[i-1]; else { Z3_ast t=x.w<64?Z3_mk_sign_ext(Z,64-x.w,toBV(x)):toBV(x); t=Z3_mk_bvmul(Z,t,mkBV((u64)(int64_t)q.aux[i-1],64)); e=e?Z3_mk_bvadd(Z,e,t):t; symb=true; } } if (!symb) { f.r[q.dst]=VI(b.u+off,64); } else { Z3_ast r=Z3_mk_bvadd(Z,toBV(b),mkBV(off,64)); if (e) r=Z3_mk_bvadd(Z,r,e); f.r[q.dst]=VBV(simp(r),64); } f.ip++; return; }
    case Instruction::Alloca: { auto* a=cast<AllocaInst>(q.I); Val n=concretize(S,V(0)); u64 sz=DL->getTypeAllocSize(a->getAllocatedType())*n.u; u32 id=S.mem.alloc(sz,1,false); f.allocas.push_back(id); f.r[q.dst]=VI(mkptr(id),64); f.ip++; return; }
    case Instruction::Select: { const Val&c=V(0); if (c.k==KAGG) { std::vector<Val> v; for (size_t i=0;i<c.a->v.size();i++) { const Val&x=c.a->v[i]; if (x.k!=KINT) unsup("symbolic vector select"); v.push_back(x.u?V(1).a->v[i]:V(2).a->v[i]); } f.r[q.dst]=VAgg(v); f.ip++; return; }
      if (c.k==KINT) { f.r[q.dst]=c.u?V(1):V(2); f.ip++; return; } const Val&a=V(1),&b=V(2); Type* t=q.I->getType(); if (a.k==KREAL||b.k==KREAL||a.k==KAGG||t->isPointerTy()||(REALMODE&&t->isDoubleTy())||t->isFloatTy()) { bool r=branch(S,toBool(c)); f.r[q.dst]=r?V(1):V(2); f.ip++; return; } Z3_ast cb=toBool(c); if (q.w==1) { f.r[q.dst]=VBool(Z3_mk_ite(Z,cb,toBool(a),toBool(b))); } else f.r[q.dst]=VBV(simp(Z3_mk_ite(Z,cb,toBV(a),toBV(b))), t->isIntegerTy()?q.w:64); f.ip++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast: { Val r=castOp(S,q.op,V(0),q.I->getOperand(0)->getType(),q.I->getType()); f.r[q.dst]=r; f.ip++; return; }
    case Instruction::Freeze: f.r[q.dst]=V(0); f.ip++; return;
    case Instruction::ExtractValue: { Val v=V(0); for (unsigned i:cast<ExtractValueInst>(q.I)->indices()) v=v.a->v[i]; f.r[q.dst]=v; f.ip++; return; }
    case Instruction::InsertValue: { auto* iv=cast<InsertValueInst>(q.I); std::function<Val(const Val&,unsigned)> ins=[&](const Val& a,unsigned d)->Val { if (d==iv->getNumIndices()) return V(1); std::vector<Val> v=a.a->v; v[iv->getIndices()[d]]=ins(v[iv->getIndices()[d]],d+1); return VAgg(v); }; f.r[q.dst]=ins(V(0),0); f.ip++; return; }
    case Instruction::ExtractElement: { Val i=concretize(S,V(1)); f.r[q.dst]=V(0).a->v.at(i.u); f.ip++; return; }
    case Instruction::InsertElement: { Val i=concretize(S,V(2)); std::vector<Val> v=V(0).a->v; v.at(i.u)=V(1); f.r[q.dst]=VAgg(v); f.ip++; return; }
    case Instruction::ShuffleVector: { auto* sv=cast<ShuffleVectorInst>(q.I); const Val&a=V(0),&b=V(1); std::vector<Val> v; int n=a.a->v.size(); for (int m:sv->getShuffleMask()) v.push_back(m<0?a.a->v[0]:m<n?a.a->v[m]:b.a->v[m-n]); f.r[q.dst]=VAgg(v); f.ip++; return; }
    case Instruction::Ret: { if (q.ops.empty()) doReturn(S,nullptr); else { Val v=V(0); doReturn(S,&v); } return; }
    case Instruction::Unreachable: failState(S,"ub","unreachable executed"); return;
    case Instruction::Resume: { Val e=V(0); u64 ex=e.a->v[0].u; u64 ti=S.curTI; // resume unwinding from caller
      popFrame(S); 
      // unwind() treats the top frame as executing callInst
            unwind(S,ex,ti); return; }
    case Instruction::Call: case Instruction::Invoke: { 
      if (auto* ia=dyn_cast<InlineAsm>(cast<CallBase>(q.I)->getCalledOperand())) { StringRef t(ia->getAsmString()); if (!q.I->getType()->isVoidTy()||!(t.empty()||t.starts_with("#"))) unsup("inline assembly"); finishCall(S,q,VI(0,64)); return; } // assembler comments and barriers only
      const PFunc* callee=(const PFunc*)q.pf; if (!callee) { u64 p=ptrOf(S,V(0)); u32 id=p>>32; if (id<FUNBASE||id-FUNBASE>=FUNCS.size()) memErr(S,"call through a bad function pointer"); callee=FUNCS[id-FUNBASE]; }
      std::vector<Val> args; args.reserve(q.ops.size()-1); for (size_t i=1;i<q.ops.size();i++) args.push_back(V(i));
      const Function* F=callee->F; Ext* ex=nullptr; auto it=EXTC.find(F); if (it!=EXTC.end()) ex=it->second; else { ex=findExt(F); EXTC[F]=ex; }
      if (ex) { try { Val r=(*ex)(S,args,q); finishCall(S,q,r); } catch (Thrown& t) { unwind(S,t.exc,t.ti); } return; }
      if (F->isDeclaration()) unsup("call to external function "+callee->name+" ["+F->getName().str()+"]");
      pushFrame(S,const_cast<PFunc*>(callee),args,&q); return; }
    case Instruction::AtomicRMW: { auto* a=cast<AtomicRMWInst>(q.I); u64 p=ptrOf(S,V(0)); Val o=loadT(S,p,q.I->getType()); Val n; switch (a->getOperation()) { case AtomicRMWInst::Add: n=ibin(S,Instruction::Add,o,V(1),q.w); break; case AtomicRMWInst::Sub: n=ibin(S,Instruction::Sub,o,V(1),q.w); break; case AtomicRMWInst::Xchg: n=V(1); break; default: unsup("atomicrmw"); } storeT(S,p,n,q.I->getType()); f.r[q.dst]=o; f.ip++; return; }
    case Instruction::Fence: f.ip++; return;
    default: { std::string s; raw_string_ostream os(s); q.I->print(os); unsup("instruction "+s); } } }

static std::vector<pid_t> KIDS;
static void trySplit(size_t minWork=1) { if (WORK.size()<minWork || CONCRETE) return; int a=SH->active.load(); if (a>=MAXPROC) return; if (!SH->active.compare_exchange_strong(a,a+1)) return;
  pid_t c=fork(); if (c<0) { SH->active--; return; } if (c==0) { prctl(PR_SET_PDEATHSIG,SIGKILL); KIDS.clear(); SH->procs++; // child: take half of the pending states (the oldest), no running state
    std::vector<State*> keep; for (size_t i=0;i<WORK.size();i++) if (i%2==0) keep.push_back(WORK[i]); WORK=keep; throw 42; }
  std::vector<State*> keep; for (size_t i=0;i<WORK.size();i++) { if (i%2==1) keep.push_back(WORK[i]); else delete WORK[i]; } WORK=keep; KIDS.push_back(c); }
static void runState(State* S, int& tick) {
  try { while (true) { if (S->insts>MAXINST) unsup("instruction limit per path"); if (SH->stop.load(std::memory_order_relaxed)) { SH->killed++; throw PathEnd{}; }

      if (++tick>=5000) { tick=0; SH->insts+=5000; if (SH->stop) { SH->killed++; throw PathEnd{}; } if (nowS()>DEADLINE) { if (!SH->stop.exchange(2)) emit("{\"t\":\"inconclusive\",\"msg\":\"time budget exhausted\"}"); SH->inconclusive++; SH->killed++; throw PathEnd{}; } trySplit(); }
      try { step(*S); } catch (Retry&) {} } }
  catch (PathEnd&) {} 
  catch (EngErr& e) { inconclusive(*S,"engine: "+e.msg); }
  SH->paths++; }
static void work() { int tick=0; State* cur=nullptr; for (;;) { try { while (!WORK.empty()) { trySplit(2); if (WORK.empty()) break; cur=WORK.back(); WORK.pop_back(); runState(cur,tick); delete cur; cur=nullptr; } break; } catch (int) { /* forked child: the running state belongs to the parent */ cur=nullptr; tick=0; } } }

static void z3err(Z3_context c, Z3_error_code e) { throw EngErr{std::string("z3: ")+Z3_get_error_msg(c,e)}; }
int main(int argc,char** argv) {
  std::string bc; std::string cfile; std::string entry="sx_main";
  for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if (a=="--real") REALMODE=true; else if (a=="--out") OUTFILE=nx(); else if (a=="--budget") BUDGET=atof(nx().c_str()); else if (a=="--procs") MAXPROC=atoi(nx().c_str()); else if (a=="--qlimit") QTIMEOUT=atoi(nx().c_str()); else if (a=="-v") VERBOSE=true; else if (a=="--concrete") { CONCRETE=true; cfile=nx(); } else if (a=="--repo") REPO=nx(); else if (a=="--maxfail") MAXFAIL=atoi(nx().c_str()); else if (a=="--entry") entry=nx(); else bc=a; }
  DEADLINE=nowS()+BUDGET; double T0=nowS();
  SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  OUTFD=open(OUTFILE.empty()?"/dev/stdout":OUTFILE.c_str(),O_WRONLY|O_CREAT|O_APPEND|(OUTFILE.empty()?0:O_TRUNC),0644);
  Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,z3err); SReal=Z3_mk_real_sort(Z); SBool=Z3_mk_bool_sort(Z); TRUE_=Z3_mk_true(Z); FALSE_=Z3_mk_false(Z);
  SIMP=Z3_mk_params(Z); Z3_params_inc_ref(Z,SIMP); Z3_params_set_bool(Z,SIMP,Z3_mk_string_symbol(Z,"som"),true); Z3_params_set_uint(Z,SIMP,Z3_mk_string_symbol(Z,"som_blowup"),100000); Z3_params_set_bool(Z,SIMP,Z3_mk_string_symbol(Z,"flat"),true);
  SOLV=newSolver();
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if (!mod) { err.print("symx",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout();
  INIT=new State; int rc=0;
  if (CONCRETE) loadConcrete(cfile);
  try { for (auto& F:*M) pf(&F); for (const char* n:{"_ZTISt12length_error","_ZTISt12out_of_range","_ZTISt11logic_error","_ZTISt9bad_alloc","_ZTISt17bad_function_call","_ZTISt16invalid_argument","_ZTISt20bad_array_new_length","_ZTISt13runtime_error","_ZTISt8bad_cast"}) if (!M->getNamedGlobal(n)) { u32 id=INIT->mem.alloc(64,2,true); INIT->mem.getW(id)->name=n; TINAMED[n]=mkptr(id); }
    setupGlobals(); setupExt(); for (auto* p:std::vector<PFunc*>(FUNCS)) if (!p->F->isDeclaration()) compile(p); }
  catch (EngErr& e) { emit("{\"t\":\"inconclusive\",\"msg\":\"engine setup: "+jesc(e.msg)+"\"}"); SH->inconclusive++; goto done; }
  { // static constructors, then the entry
    std::vector<const Function*> ctors; if (auto* g=M->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca=dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o:ca->operands()) if (auto* F=dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1)->stripPointerCasts())) ctors.push_back(F);
    const Function* E=M->getFunction(entry); if (!E) { emit("{\"t\":\"inconclusive\",\"msg\":\"no entry\"}"); SH->inconclusive++; goto done; }
    SH->active=1; SH->procs=1; bool ok=true;
    for (auto* c:ctors) { if (c->isDeclaration()) continue; State* s=INIT; pushFrame(*s,pf(c),{},nullptr); try { for (;;) { try { step(*s); } catch (Retry&) {} } } catch (PathEnd&) {} catch (EngErr& e) { inconclusive(*s,"static init: "+e.msg); ok=false; } while (!s->st.empty()) popFrame(*s); if (!WORK.empty()) { ok=false; } }
    if (ok) { pid_t root=getpid(); State* s=new State(*INIT); pushFrame(*s,pf(E),{},nullptr); WORK.push_back(s); work(); SH->active--; for (pid_t k:KIDS) { int st=0; waitpid(k,&st,0); if (!WIFEXITED(st)||WEXITSTATUS(st)) { SH->inconclusive++; emit("{\"t\":\"inconclusive\",\"msg\":\"a worker process died\"}"); } } if (getpid()!=root) _exit(0); } else SH->inconclusive++; }
done:
  { std::string fn; std::map<std::string,std::set<unsigned>> lines; std::set<std::string> fs; for (auto* p:FUNCS) if (p->id<(1<<16)&&SH->fcov[p->id]&&p->inRepo) { std::string n=p->name; size_t c=n.find('('); if (n.size()>140) n=n.substr(0,140); fs.insert(n); (void)c; } u64 nins=0; for (u32 g=0;g<NEXTGID&&g<(1u<<21);g++) if (SH->icov[g]) { nins++; auto& l=GIDLINE[g]; if (l.second) lines[l.first].insert(l.second); }
    std::string fl="["; bool first=true; for (auto& n:fs) { fl+=(first?"\"":",\"")+jesc(n)+"\""; first=false; } fl+="]"; std::string ll="{"; first=true; for (auto& kv:lines) { std::string b=kv.first; ll+=(first?"\"":",\"")+jesc(b)+"\":"+std::to_string(kv.second.size()); first=false; } ll+="}";
    struct rusage ru; getrusage(RUSAGE_CHILDREN,&ru);
    emit("{\"t\":\"summary\",\"paths\":"+std::to_string(SH->paths)+",\"killed\":"+std::to_string(SH->killed)+",\"forks\":"+std::to_string(SH->forks)+",\"queries\":"+std::to_string(SH->queries)+",\"unsat\":"+std::to_string(SH->unsat)+",\"sat\":"+std::to_string(SH->sat)+",\"unknown\":"+std::to_string(SH->unknown)+",\"asserts\":"+std::to_string(SH->asserts)+",\"discharged\":"+std::to_string(SH->discharged)+",\"by_simplifier\":"+std::to_string(SH->trivially)+",\"insts\":"+std::to_string(SH->insts)+",\"failures\":"+std::to_string(SH->failures)+",\"inconclusive\":"+std::to_string(SH->inconclusive)+",\"solver_s\":"+std::to_string(SH->nanosSolver/1e9)+",\"assumed_nonzero\":"+std::to_string(SH->assumedNonzero)+",\"procs\":"+std::to_string(SH->procs)+",\"peak_pc\":"+std::to_string(SH->peakPC)+",\"wall_s\":"+std::to_string(nowS()-T0)+",\"repo_insts\":"+std::to_string(nins)+",\"functions\":"+fl+",\"lines\":"+ll+"}"); }
  fflush(stdout); _exit(rc);
}
