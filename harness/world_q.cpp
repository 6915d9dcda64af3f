#include "world_query.hpp"
namespace vt {
#if PART == 1
QUERY() QUERY(A) QUERY(B) QUERY(T)
#elif PART == 2
QUERY(S) QUERY(M) QUERY(H) QUERY(L5)
#elif PART == 3
QUERY(A, B) QUERY(B, A) QUERY(S, A)
#elif PART == 4
QUERY(T, A) QUERY(H, B) QUERY(L1, A)
#elif PART == 5
QUERY(A, B, S) QUERY(C3) QUERY(Q)
#elif PART == 6
QUERY(M, A) QUERY(Q, C3) QUERY(L1)
#elif PART == 7
QUERY(A, S, M, H) QUERY(S, B, A, H)
#elif PART == 8
QUERY(Q, A, H, S, B) QUERY(L5, L7)
#elif PART == 9
QUERY(W) QUERY(E) QUERY(G, A) QUERY(Y) QUERY(A, Y)
#endif
}
