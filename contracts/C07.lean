/-! A text in which every `q` is doubled, followed by a closing `q`, is read back
as exactly that text by a lexer that ends a token at the first undoubled `q`. -/

variable {α : Type} [DecidableEq α]

/-- Every `q` doubled: what `strings.ReplaceAll(s, q, qq)` computes. -/
def doubled (q : α) : List α → List α
  | [] => []
  | c :: cs => if c = q then q :: q :: doubled q cs else c :: doubled q cs

/-- Reads a quoted token after its opening quote: its text and what follows. -/
def lex (q : α) : List α → Option (List α × List α)
  | [] => none
  | [c] => if c = q then some ([], []) else none
  | c :: d :: ds =>
    if c = q then
      if d = q then (lex q ds).map fun r => (q :: r.1, r.2) else some ([], d :: ds)
    else (lex q (d :: ds)).map fun r => (c :: r.1, r.2)

theorem lex_doubled (q : α) (s rest : List α) (h : rest.head? ≠ some q) :
    lex q (doubled q s ++ q :: rest) = some (s, rest) := by
  induction s with
  | nil =>
    cases rest with
    | nil => simp [doubled, lex]
    | cons d ds =>
      have : d ≠ q := by intro e; apply h; simp [e]
      simp [doubled, lex, this]
  | cons c cs ih =>
    by_cases e : c = q
    · subst e
      simp [doubled, lex, ih]
    · cases hx : doubled q cs ++ q :: rest with
      | nil => simp at hx
      | cons d ds =>
        rw [hx] at ih
        simp [doubled, e, hx, lex, ih]

theorem doubled_injective (q : α) (s t : List α) (h : doubled q s = doubled q t) : s = t := by
  have a := lex_doubled q s [] (by simp)
  have b := lex_doubled q t [] (by simp)
  rw [h, b] at a
  simpa using a.symm
