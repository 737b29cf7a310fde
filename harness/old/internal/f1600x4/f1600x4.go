// f1600x4 implements a fast fourway KeccaK-f[1600] permutation on platforms
// that support it.  KeccaK-f[1600] is the permutation underlying KeccaK,
// SHA3 and SHAKE.
//
// Copied by bas@westerbaam.name from the internal package of
// https://github.com/cloudflare/circl written by bas@cloudflare.com.
//
// TODO Use the upstream version.
package f1600x4
