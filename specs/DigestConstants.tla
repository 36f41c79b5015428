-------------------------- MODULE DigestConstants --------------------------
(* The numbers of the standards, as signed numbers of 32 bits.                *)
EXTENDS Integers
\* The integer parts of 2^32 |sin i|, RFC 1321.
Sines == <<
   -680876936, -389564586, 606105819, -1044525330, -176418897, 1200080426, -1473231341, -45705983,
   1770035416, -1958414417, -42063, -1990404162, 1804603682, -40341101, -1502002290, 1236535329,
   -165796510, -1069501632, 643717713, -373897302, -701558691, 38016083, -660478335, -405537848,
   568446438, -1019803690, -187363961, 1163531501, -1444681467, -51403784, 1735328473, -1926607734,
   -378558, -2022574463, 1839030562, -35309556, -1530992060, 1272893353, -155497632, -1094730640,
   681279174, -358537222, -722521979, 76029189, -640364487, -421815835, 530742520, -995338651,
   -198630844, 1126891415, -1416354905, -57434055, 1700485571, -1894986606, -1051523, -2054922799,
   1873313359, -30611744, -1560198380, 1309151649, -145523070, -1120210379, 718787259, -343485551 >>
\* The first 32 bits of the fractional parts of the cube roots, and of the square roots, of the first primes, FIPS 180-4.
CubeRoots == <<
   1116352408, 1899447441, -1245643825, -373957723, 961987163, 1508970993, -1841331548, -1424204075,
   -670586216, 310598401, 607225278, 1426881987, 1925078388, -2132889090, -1680079193, -1046744716,
   -459576895, -272742522, 264347078, 604807628, 770255983, 1249150122, 1555081692, 1996064986,
   -1740746414, -1473132947, -1341970488, -1084653625, -958395405, -710438585, 113926993, 338241895,
   666307205, 773529912, 1294757372, 1396182291, 1695183700, 1986661051, -2117940946, -1838011259,
   -1564481375, -1474664885, -1035236496, -949202525, -778901479, -694614492, -200395387, 275423344,
   430227734, 506948616, 659060556, 883997877, 958139571, 1322822218, 1537002063, 1747873779,
   1955562222, 2024104815, -2067236844, -1933114872, -1866530822, -1538233109, -1090935817, -965641998 >>
SquareRoots == <<
   1779033703, -1150833019, 1013904242, -1521486534, 1359893119, -1694144372, 528734635, 1541459225 >>
\* 0x67452301 0xefcdab89 0x98badcfe 0x10325476 0xc3d2e1f0
Start5 == <<
   1732584193, -271733879, -1732584194, 271733878, -1009589776 >>
\* 0x5a827999 0x6ed9eba1 0x8f1bbcdc 0xca62c1d6
Adds == <<
   1518500249, 1859775393, -1894007588, -899497514 >>
\* 0xedb88320
Polynomial == -306674912
=============================================================================
