----------------------------- MODULE MC_PerLoops -----------------------------
EXTENDS PerLoops
StepSet == {<<2, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>}
=============================================================================
