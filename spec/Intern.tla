------------------------------- MODULE Intern ------------------------------
(***************************************************************************)
(* Intern(t) stands for the term t and for nothing else: an injective      *)
(* function. TLC replaces it by a numbering of the terms (java/bk/Ov.java),*)
(* which keeps nested terms small.                                         *)
(***************************************************************************)
Intern(t) == << "term", t >>
=============================================================================
