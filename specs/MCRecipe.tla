------------------------------ MODULE MCRecipe ------------------------------
(* Recipes built by adding any step that fits: every such recipe keeps the     *)
(* level order and the unit order; no step fits twice where it changes the unit.*)
EXTENDS RecipeOps
CONSTANTS Depth
VARIABLES s, steps, level
Names == DOMAIN At \cup DOMAIN Update \cup Makers \cup {"save"}
Init == level \in {"L1", "L2a", "L2b", "L3"} /\ s = Start(level) /\ steps = <<>>
Next == /\ Len(steps) < Depth
        /\ \E n \in {"convert_to_electrons", "em_gain_division", "dark_subtraction", "get_pc_mean", "divide_by_exptime", "save", "build_trad_dark"} \cup DOMAIN Update :
             LET st == [name |-> n] IN
             /\ LevelFits(s, st) /\ UnitFits(s, st) /\ OneUse(s, st)
             /\ s' = After(s, st) /\ steps' = Append(steps, n)
        /\ UNCHANGED level
Spec == Init /\ [][Next]_<<s, steps, level>>
Count(n) == Cardinality({i \in DOMAIN steps : steps[i] = n})
Once == \A n \in DOMAIN Update \cup {"convert_to_electrons", "em_gain_division", "dark_subtraction", "divide_by_exptime"} : Count(n) <= 1
Before(a, b) == \A i, j \in DOMAIN steps : steps[i] = a /\ steps[j] = b => i < j
Ordered == Before("update_to_l2a", "update_to_l2b") /\ Before("update_to_l2b", "update_to_l3") /\ Before("em_gain_division", "dark_subtraction")
           /\ Before("convert_to_electrons", "em_gain_division") /\ Before("dark_subtraction", "divide_by_exptime")
Same == s = Run(Start(level), [i \in DOMAIN steps |-> [name |-> steps[i]]])
=============================================================================
