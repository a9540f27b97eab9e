// Structure of a tree after any history of expand / collapse / prune / overwrite / re-initialise operations.
#include "ref_tree.h"
using namespace StochTree; using namespace ref;
#ifndef SXD_K
#define SXD_K 3
#endif
#ifndef SXD_PRE
#define SXD_PRE 0
#endif
#ifndef SXD_DIM
#define SXD_DIM 1
#endif
int sx_main() {
  Tree t; RTree R; R.init(SXD_DIM); Gen g; g.any = true; g.feats = 1;
  t.Init(SXD_DIM); checkStructure(t, R);
  if (SXD_PRE) { g.ncat = 1; g.expand(t, R, 0); g.expand(t, R, R.n[0].l); g.expand(t, R, R.n[0].r); checkStructure(t, R); } // start from a full tree of depth two
  for (int s = 0; s < SXD_K; s++) { g.step(t, R, SXD_PRE ? 7 : s == 0 ? 1 : s == SXD_K - 1 ? 15 : 7); checkStructure(t, R); }
  sx_observe_i("leaves", t.NumLeaves()); sx_observe_i("nodes", t.NumNodes());
  int how = SXD_PRE ? 0 : sx_choice("after", 4);
  if (how == 1) { Tree u; u.CloneFromTree(&t); checkStructure(u, R); // the clone lives on by itself
    RTree S = R; g.step(u, S, 7); checkStructure(u, S); sync(t, R, 0); checkStructure(t, R); }
  if (how == 2) { t.Reset(); t.Init(SXD_DIM); RTree S; S.init(SXD_DIM); checkStructure(t, S); g.step(t, S, 1); checkStructure(t, S); g.step(t, S, 7); checkStructure(t, S); }
  if (how == 3) { t.Init(SXD_DIM); RTree S; S.init(SXD_DIM); checkStructure(t, S); g.step(t, S, 1); checkStructure(t, S); g.step(t, S, 7); checkStructure(t, S); }
  sx_reach("end"); sx_sample();
  return 0;
}
