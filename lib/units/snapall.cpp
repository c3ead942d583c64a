// The bundled library with its class templates instantiated: containers, streams, graphs, tables.
#include "Snap.h"
#include "bd.cpp"
#include "dt.cpp"
#include "ut.cpp"
#include "hash.cpp"
#include "unicode.cpp"
#include "unicodestring.cpp"
#include "tm.cpp"
#include "os.cpp"
#include "bits.cpp"
#include "env.cpp"
#include "wch.cpp"
#include "xfl.cpp"
#include "xmath.cpp"
#include "blobbs.cpp"
#include "lx.cpp"
#include "url.cpp"
#include "http.cpp"
#include "html.cpp"
#include "md5.cpp"
#include "ss.cpp"
#include "xml.cpp"
#include "json.cpp"
#include "attr.cpp"
#include "graph.cpp"
#include "graphmp.cpp"
#include "network.cpp"
#include "networkmp.cpp"
#include "mmnet.cpp"
#include "timenet.cpp"
#include "table.cpp"
#include "gsvd.cpp"
template class TNodeNet<TInt>;
template class TNodeEDatNet<TInt, TFlt>;
template class TNodeEdgeNet<TInt, TFlt>;
template class TVec<TInt>;
template class TVec<TStr>;
template class TVecPool<TInt>;
template class TPair<TInt, TStr>;
template class TTriple<TInt, TFlt, TStr>;
template class TQuad<TInt, TFlt, TStr, TInt>;
template class TKeyDat<TInt, TStr>;
template class THash<TInt, TStr>;
template class THashSet<TStr>;
template class THashKeyDat<TInt, TStr>;
template class TStrHash<TInt>;
