module Streak
  (* n consecutive positions from p on are errors *)
  predicate all_bad (m: seq int) (p n: int) =
    0 <= p /\ p + n <= length m /\ forall k. p <= k < p + n -> get m k <= 0
end
