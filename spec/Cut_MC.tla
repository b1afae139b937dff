------------------------------- MODULE Cut_MC --------------------------------
EXTENDS Cut
Terminates == <>Over
FairSpec == Spec /\ WF_vars(Next)
=============================================================================
