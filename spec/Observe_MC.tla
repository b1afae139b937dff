----------------------------- MODULE Observe_MC ------------------------------
EXTENDS Observe
Terminates == <>Over
FairSpec == Spec /\ WF_vars(Next)
=============================================================================
