#include "world_query.hpp"
namespace vt {
#if PART == 1
COMBO() COMBO(A) COMBO(B) COMBO(T) COMBO(S) COMBO(M) COMBO(H) COMBO(C3) COMBO(Q) COMBO(L1) COMBO(L5) COMBO(L7) COMBO(L9)
COMBO(A, B) COMBO(B, A) COMBO(T, A) COMBO(A, T) COMBO(T, B) COMBO(L1, A)
#elif PART == 2
COMBO(A, B, S) COMBO(S, B, A) COMBO(B, H) COMBO(H, B) COMBO(A, C3, Q) COMBO(Q, C3, A) COMBO(M, S) COMBO(A, M) COMBO(M, A, B)
COMBO(S, H) COMBO(A, L1) COMBO(H, Q, C3) COMBO(C3, H, Q) COMBO(A, S, M, H) COMBO(T, S, H) COMBO(L5, A) COMBO(L5, B)
COMBO(L5, L7) COMBO(L7, L5) COMBO(L9, A) COMBO(L9, L7) COMBO(L5, L7, L9) COMBO(B, L9, L7, L1) COMBO(B, S)
#elif PART == 3
COMBO(A, B, S, H) COMBO(B, S, Q, H, A) COMBO(H, S, B, A) COMBO(W) COMBO(A, W) COMBO(W, B) COMBO(E) COMBO(E, S) COMBO(G) COMBO(G, A)
COMBO(H, W, E, G) COMBO(C3, W) COMBO(Y) COMBO(A, Y) COMBO(Y, C3, S) COMBO(B, Y, T)
#endif
}
