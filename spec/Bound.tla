------------------------------- MODULE Bound -------------------------------
(* How many pages the content of a document can take: the budget machine     *)
(* reads the instructions of the body and adds what each may start. Headers  *)
(* and footers start none.                                                   *)
(*                                                                           *)
(* An instruction is [k, chars, boxes, rows]: its characters (spaces between *)
(* words included) and, for a table, its boxes and rows, empty ones included *)
EXTENDS Naturals, Sequences
\* a page ends at most before every character, or hyphen, or space
TextPages(chars) == 2 * chars
Cost(i) ==
  CASE i.k = "newpage" -> 1
    [] i.k = "text" -> TextPages(i.chars)
    [] i.k = "box" -> 1 + TextPages(i.chars)
    \* a row may start a page, on which the rows of the head are painted again
    [] i.k = "table" -> 1 + i.rows + (TextPages(i.chars) + i.boxes) * (1 + i.rows)
    [] OTHER -> 0
=============================================================================
