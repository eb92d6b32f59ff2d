------------------------------ MODULE MC_NdShapes ------------------------------
EXTENDS MC_Nd
SmallShapes == { << 3, 2 >>, << 2, 3 >>, << 1, 4 >>, << 2, 1, 2 >> }
LargeShapes == SmallShapes \cup { << 4, 5 >>, << 3, 3 >>, << 2, 3, 2 >>, << 1, 2, 1, 2 >>, << 6, 1 >> }
==============================================================================
