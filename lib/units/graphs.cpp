// The graph classes of the bundled library, with the class templates instantiated.
#include "Snap.h"
#include "graph.cpp"
#include "graphmp.cpp"
#include "network.cpp"
#include "networkmp.cpp"
#include "mmnet.cpp"
#include "timenet.cpp"
template class TNodeNet<TInt>;
template class TNodeEDatNet<TInt, TFlt>;
template class TNodeEdgeNet<TInt, TFlt>;
template class TVec<TInt>;
template class TVec<TStr>;
template class TVecPool<TInt>;
template class TPair<TInt, TStr>;
template class TTriple<TInt, TFlt, TStr>;
template class TQuad<TInt, TFlt, TStr, TInt>;
template class TKeyDat<TInt, TStr>;
template class THash<TInt, TStr>;

template class THashSet<TStr>;
template class THashKeyDat<TInt, TStr>;
template class TStrHash<TInt>;


