SPECIFICATION Spec
INVARIANTS Total OwnLevel OnlyDarksMix CountingMatters LoopMatters
CHECK_DEADLOCK FALSE
