------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* Building a page: what is written to the current directory.              *)
(*                                                                         *)
(* A disk is a function from paths to contents.  The page refers to the    *)
(* shipped files and, by the paths that the manuscript gives, to assets.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE FileName(_)
FileName(p) ==   \* what follows the last stroke
  IF \E i \in 1..Len(p) : SubSeq(p, i, i) = "/"
  THEN FileName(SubSeq(p, (CHOOSE i \in 1..Len(p) : SubSeq(p, i, i) = "/") + 1, Len(p))) ELSE p
CopyOf(p) == "static/" \o FileName(p)

Missing(disk, assets) == {a \in Range(assets) : a \notin DOMAIN disk}

(* The copy of an asset is written over another asset, or two assets have  *)
(* one copy.                                                               *)
Collides(assets) ==
  \E a, b \in Range(assets) : a # b /\ (CopyOf(a) = CopyOf(b) \/ CopyOf(a) = b)

(* the files that a build writes; shipped is a disk                        *)
Copies(disk, assets) ==
  [p \in {CopyOf(a) : a \in Range(assets)} |->
     disk[assets[CHOOSE i \in 1..Len(assets) : CopyOf(assets[i]) = p /\ \A j \in (i + 1)..Len(assets) : CopyOf(assets[j]) # p]]]
Written(disk, assets, shipped, page) == ("index.html" :> page) @@ Copies(disk, assets) @@ shipped
Built(disk, assets, shipped, page) ==
  IF Missing(disk, assets) # {} THEN disk ELSE Written(disk, assets, shipped, page) @@ disk
=============================================================================
