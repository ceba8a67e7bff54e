-------------------------------- MODULE MCIp --------------------------------
(* Every address over the given octets is asked for its networks once; the   *)
(* networks are characterized by their bits.                                 *)
EXTENDS Ip, Json, FiniteSets
CONSTANTS Octets
VARIABLES a, asked
Init == a \in [1 .. 4 -> Octets] /\ asked = FALSE
Ask == ~asked /\ asked' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Ask]_<<a, asked>>
Lengths == 0 .. 32
Encloses == \A n \in Lengths : \A b \in 1 .. 32 : Bit(Net(a, n), b) = (IF b <= n THEN Bit(a, b) ELSE 0)
Octetwise == \A n \in Lengths : \A j \in 1 .. 4 : Net(a, n)[j] \in 0 .. Octet - 1
Nested == \A n, m \in Lengths : n <= m => Net(Net(a, m), n) = Net(a, n)
Ends == Net(a, 32) = a /\ Net(a, 0) = <<0, 0, 0, 0>>
ByOctets == /\ Net(a, 8) = <<a[1], 0, 0, 0>> /\ Net(a, 16) = <<a[1], a[2], 0, 0>> /\ Net(a, 24) = <<a[1], a[2], a[3], 0>>
Emit == PrintT(ToJson([addr |-> a]))
=============================================================================
