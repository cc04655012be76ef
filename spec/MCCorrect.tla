------------------------------ MODULE MCCorrect ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dives, MaxVer, MaxCmds
VARIABLES raw, par, img, n, last
\* u30 and u40 share parameters, man has none, ub is u30 with a suffix
P(c) == CASE c \in {"u30", "u40"} -> "u" [] c = "ub" -> "ub" [] OTHER -> "m"
N(c) == c # "man"
INSTANCE CorrectWorkflow WITH Confs <- {"u30", "u40", "ub", "man"}, ParamOf <- P, NeedsParams <- N
=============================================================================
