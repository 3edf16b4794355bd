------------------------------- MODULE Curves ------------------------------
(***************************************************************************)
(* The Edwards and Montgomery curves of RFC 7748 and RFC 8032, and Ed1174. *)
(***************************************************************************)
EXTENDS Curve

Q25519 == ZHex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
Q448 == ZHex("3fffffffffffffffffffffffffffffffffffffffffffffffffffffff7cca23e9c44edb49aed63690216cc2728dc58f552378c292ab5844f3")
P25519 == Z2(255) -- Z(19)
P448 == Z2(448) -- Z2(224) -- Z1
\* fs, ss: bytes of field elements and scalars; es: bytes of encoded points and private keys; h: cofactor
EdCurves ==
  [ed25519 |-> [p |-> P25519, n |-> Q25519, a |-> P25519 -- Z1,
      d |-> ZHex("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3"),
      g |-> <<ZHex("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"),
              ZHex("6666666666666666666666666666666666666666666666666666666666666658")>>,
      h |-> 8, fs |-> 32, ss |-> 32, es |-> 32, bits |-> 255, hash |-> "sha512", always |-> FALSE,
      dom |-> "SigEd25519 no Ed25519 collisions"],
   ed448 |-> [p |-> P448, n |-> Q448, a |-> Z1, d |-> P448 -- Z(39081),
      g |-> <<ZHex("4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e"),
              ZHex("693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14")>>,
      h |-> 4, fs |-> 56, ss |-> 56, es |-> 57, bits |-> 448, hash |-> "shake256", always |-> TRUE,
      dom |-> "SigEd448"],
   ed1174 |-> [p |-> Z2(251) -- Z(9), n |-> ZHex("01fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971"),
      a |-> Z1, d |-> Z2(251) -- Z(1183),
      g |-> <<ZHex("037fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda"),
              ZHex("06b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e")>>,
      h |-> 4, fs |-> 32, ss |-> 32, es |-> 32, bits |-> 251, hash |-> "sha512", always |-> TRUE,
      dom |-> "SigEd1174"]]
MtCurves ==
  [x25519 |-> [p |-> P25519, n |-> Q25519, A |-> Z(486662), u |-> Z(9), h |-> 8, fs |-> 32, bits |-> 255],
   x448 |-> [p |-> P448, n |-> Q448, A |-> Z(156326), u |-> Z(5), h |-> 4, fs |-> 56, bits |-> 448]]
=============================================================================
