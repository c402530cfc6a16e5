/-
What follows for whole patterns from the contracts of the functions.

A matcher is known by its contract only (lib/theory.py, class Matcher): called at position p with a lookahead L (a
predicate on positions; no lookahead is the predicate that always holds) it rejects (none) or accepts and stops at e (some e).
The captures written on the way are functions of the positions, so two runs through the same positions record the same.
The premises below named *_contract are the postconditions that lib/nodes_spec.py proves for the real functions.
-/
namespace ERegex

abbrev Look := Nat → Prop
abbrev Mat := Look → Nat → Option Nat
def lookAll : Look := fun _ => True

/-- k repetitions in a row -/
def it (m : Nat → Option Nat) : Nat → Nat → Option Nat
  | 0, p => some p
  | k+1, p => (it m k p).bind m

theorem it_succ (m : Nat → Option Nat) (k p : Nat) : it m (k+1) p = (it m k p).bind m := rfl

theorem it_le {m : Nat → Option Nat} {p : Nat} {j k : Nat} {r : Nat} (h : j ≤ k) (hk : it m k p = some r) :
    ∃ r', it m j p = some r' := by
  induction k generalizing r with
  | zero => have : j = 0 := by omega
            subst this; exact ⟨p, rfl⟩
  | succ k ih =>
    by_cases hj : j = k+1
    · subst hj; exact ⟨r, hk⟩
    · rw [it_succ] at hk
      cases hs : it m k p with
      | none => rw [hs] at hk; simp at hk
      | some s => exact ih (by omega) hs

/-- a legal matcher stays inside the subject of length n and never moves back -/
def Legal (n : Nat) (m : Nat → Option Nat) : Prop := ∀ p e, p ≤ n → m p = some e → p ≤ e ∧ e ≤ n

theorem it_legal {n : Nat} {m : Nat → Option Nat} (hm : Legal n m) : ∀ k, Legal n (it m k) := by
  intro k
  induction k with
  | zero => intro p e hp h; simp [it] at h; omega
  | succ k ih =>
    intro p e hp h
    rw [it_succ] at h
    cases hs : it m k p with
    | none => rw [hs] at h; simp at h
    | some s =>
      rw [hs] at h; simp at h
      have h1 := ih p s hp hs
      have h2 := hm s e h1.2 h
      omega

theorem it_mono {n : Nat} {m : Nat → Option Nat} (hm : Legal n m) {p : Nat} (hp : p ≤ n) {j k r s : Nat} (h : j ≤ k)
    (hj : it m j p = some r) (hk : it m k p = some s) : r ≤ s := by
  induction k generalizing s with
  | zero => have : j = 0 := by omega
            subst this; rw [hj] at hk; simp at hk; omega
  | succ k ih =>
    by_cases e : j = k+1
    · subst e; rw [hj] at hk; simp at hk; omega
    · rw [it_succ] at hk
      cases hs : it m k p with
      | none => rw [hs] at hk; simp at hk
      | some t =>
        rw [hs] at hk; simp at hk
        have := ih (by omega) hs
        have := hm t s (it_legal hm k p t hp hs).2 hk
        omega

/-- if the chain gets from r further on, some repetition starts at r and consumes something -/
theorem it_leaves {n : Nat} {m : Nat → Option Nat} (hm : Legal n m) {p : Nat} (hp : p ≤ n) {j r : Nat} (hj : it m j p = some r) :
    ∀ {k s : Nat}, j ≤ k → it m k p = some s → r < s → ∃ e, m r = some e ∧ r < e := by
  intro k
  induction k with
  | zero => intro s h hk hlt
            have : j = 0 := by omega
            subst this; rw [hj] at hk; simp at hk; omega
  | succ k ih =>
    intro s h hk hlt
    by_cases e : j = k+1
    · subst e; rw [hj] at hk; simp at hk; omega
    · rw [it_succ] at hk
      cases hs : it m k p with
      | none => rw [hs] at hk; simp at hk
      | some t =>
        rw [hs] at hk; simp at hk
        by_cases hrt : r < t
        · exact ih (by omega) hs hrt
        · have := it_mono hm hp (by omega : j ≤ k) hj hs
          have : r = t := by omega
          subst this; exact ⟨s, hk, hlt⟩

/-! ### The contracts of the quantifiers -/
variable {n : Nat}

/-- what lib/nodes_spec.py calls Tail: no later count works, unless it leads to the very same place -/
def Tail (m : Nat → Option Nat) (ok : Look) (hi p k : Nat) : Prop :=
  ∀ j, k < j → j ≤ hi → it m j p = none ∨ (∀ r, it m j p = some r → ¬ ok r) ∨ it m j p = it m k p
/-- Full: nothing is left to repeat, or only empty repetitions -/
def Full (m : Nat → Option Nat) (hi p k : Nat) : Prop := ∀ j, k < j → j ≤ hi → it m j p = none ∨ it m j p = it m k p

structure GreedyC (m : Nat → Option Nat) (lo hi : Nat) (C X : Nat → Option Nat) : Prop where
  acc : ∀ p e, X p = some e → ∃ k r, lo ≤ k ∧ k ≤ hi ∧ it m k p = some r ∧ C r = some e ∧ Tail m (fun x => (C x).isSome) hi p k
  rej : ∀ p, X p = none → ∀ k r, lo ≤ k → k ≤ hi → it m k p = some r → C r = none
structure GreedyL (m : Nat → Option Nat) (lo hi : Nat) (L : Look) (X : Nat → Option Nat) : Prop where
  acc : ∀ p e, X p = some e → ∃ k, lo ≤ k ∧ k ≤ hi ∧ it m k p = some e ∧ (k = lo ∨ L e) ∧ Tail m L hi p k
  rej : ∀ p, X p = none → it m lo p = none
structure LazyC (m : Nat → Option Nat) (lo hi : Nat) (C X : Nat → Option Nat) : Prop where
  acc : ∀ p e, X p = some e → ∃ k r, lo ≤ k ∧ k ≤ hi ∧ it m k p = some r ∧ C r = some e ∧ ∀ j s, lo ≤ j → j < k → it m j p = some s → C s = none
  rej : ∀ p, X p = none → ∀ k r, lo ≤ k → k ≤ hi → it m k p = some r → C r = none
structure PossC (m : Nat → Option Nat) (lo hi : Nat) (C X : Nat → Option Nat) : Prop where
  acc : ∀ p e, X p = some e → ∃ k r, lo ≤ k ∧ k ≤ hi ∧ it m k p = some r ∧ C r = some e ∧ Full m hi p k
  rej : ∀ p, X p = none → it m lo p = none ∨ ∃ k r, lo ≤ k ∧ k ≤ hi ∧ it m k p = some r ∧ C r = none ∧ Full m hi p k

/-! ### The optimiser: a quantifier may be made possessive -/
variable {q : Nat → Nat} {m C X Y : Nat → Option Nat} {lo hi : Nat} {Bm Bc : Nat → Prop}

/-- the core: with disjoint sets, whatever follows the quantifier rejects at every earlier place, if it rejects at the last -/
theorem earlier_rejects (hm : Legal n m)
    (am : ∀ p e, p ≤ n → m p = some e → p < e → Bm (q p))
    (ac : ∀ p e, p < n → C p = some e → Bc (q p) ∨ ∀ r, r ≤ n → ∃ e, C r = some e)
    (dis : ∀ c, Bm c → ¬ Bc c) {p : Nat} (hp : p ≤ n) {k K r R : Nat} (hk : it m k p = some r) (hK : it m K p = some R)
    (full : Full m hi p K) (khi : k ≤ hi) (hR : C R = none) : C r = none := by
  cases hr : C r with
  | none => rfl
  | some e =>
    exfalso
    rcases Nat.lt_or_ge K k with h | h
    · rcases full k h khi with h' | h'
      · rw [hk] at h'; simp at h'
      · rw [hk, hK] at h'; simp at h'; subst h'; rw [hR] at hr; simp at hr
    · have hle := it_mono hm hp h hk hK
      rcases Nat.lt_or_ge r R with hlt | hge
      · obtain ⟨e', he', hlt'⟩ := it_leaves hm hp hk h hK hlt
        have hrn := (it_legal hm k p r hp hk).2
        have hRn := (it_legal hm K p R hp hK).2
        have b := am r e' hrn he' hlt'
        rcases ac r e (by omega) hr with b' | ev
        · exact dis _ b b'
        · obtain ⟨e2, h2⟩ := ev R hRn; rw [hR] at h2; simp at h2
      · have : r = R := by omega
        subst this; rw [hR] at hr; simp at hr

/-- greedy.hpp `optimize`, followed by its own continuation -/
theorem greedy_is_possessive (hm : Legal n m)
    (am : ∀ p e, p ≤ n → m p = some e → p < e → Bm (q p))
    (ac : ∀ p e, p < n → C p = some e → Bc (q p) ∨ ∀ r, r ≤ n → ∃ e, C r = some e)
    (dis : ∀ c, Bm c → ¬ Bc c) (gX : GreedyC m lo hi C X) (pY : PossC m lo hi C Y) {p : Nat} (hp : p ≤ n) : X p = Y p := by
  cases hY : Y p with
  | some e =>
    obtain ⟨K, R, h1, h2, h3, h4, h5⟩ := pY.acc p e hY
    cases hX : X p with
    | none => have := gX.rej p hX K R h1 h2 h3; rw [h4] at this; simp at this
    | some f =>
      obtain ⟨k, r, g1, g2, g3, g4, g5⟩ := gX.acc p f hX
      have : r = R := by
        rcases Nat.lt_trichotomy k K with h | h | h
        · rcases g5 K h h2 with h' | h' | h'
          · rw [h3] at h'; simp at h'
          · have := h' R h3; simp [h4] at this
          · rw [h3, g3] at h'; simp at h'; omega
        · subst h; rw [h3] at g3; simp at g3; omega
        · rcases h5 k h g2 with h' | h'
          · rw [g3] at h'; simp at h'
          · rw [h3, g3] at h'; simp at h'; omega
      subst this; rw [g4] at h4; exact h4
  | none =>
    cases hX : X p with
    | none => rfl
    | some f =>
      exfalso
      obtain ⟨k, r, g1, g2, g3, g4, _⟩ := gX.acc p f hX
      rcases pY.rej p hY with h | ⟨K, R, h1, h2, h3, h4, h5⟩
      · obtain ⟨x, hx⟩ := it_le g1 g3; rw [h] at hx; simp at hx
      · have := earlier_rejects hm am ac dis hp g3 h3 h5 g2 h4; rw [g4] at this; simp at this

/-- lazy.hpp `optimize`: neither the element nor what follows can match nothing -/
theorem lazy_is_possessive (hm : Legal n m)
    (am : ∀ p e, p ≤ n → m p = some e → Bm (q p) ∧ p < e)
    (ac : ∀ p e, p ≤ n → C p = some e → Bc (q p) ∧ p < e)
    (dis : ∀ c, Bm c → ¬ Bc c) (lX : LazyC m lo hi C X) (pY : PossC m lo hi C Y) {p : Nat} (hp : p ≤ n) : X p = Y p := by
  have core : ∀ k K r R e, it m k p = some r → it m K p = some R → C r = some e → k ≤ hi → Full m hi p K → r = R := by
    intro k K r R e h1 h2 h3 h4 h5
    rcases Nat.lt_trichotomy k K with h | h | h
    · have hle := it_mono hm hp (by omega) h1 h2
      rcases Nat.lt_or_ge r R with hlt | hge
      · obtain ⟨e', he', _⟩ := it_leaves hm hp h1 (by omega) h2 hlt
        have hrn := (it_legal hm k p r hp h1).2
        exact absurd (ac r e hrn h3).1 (dis _ (am r e' hrn he').1)
      · omega
    · subst h; rw [h1] at h2; simp at h2; omega
    · rcases h5 k h h4 with h' | h'
      · rw [h1] at h'; simp at h'
      · rw [h1, h2] at h'; simp at h'; omega
  cases hY : Y p with
  | some e =>
    obtain ⟨K, R, h1, h2, h3, h4, h5⟩ := pY.acc p e hY
    cases hX : X p with
    | none => have := lX.rej p hX K R h1 h2 h3; rw [h4] at this; simp at this
    | some f =>
      obtain ⟨k, r, g1, g2, g3, g4, _⟩ := lX.acc p f hX
      have := core k K r R f g3 h3 g4 g2 h5
      subst this; rw [g4] at h4; exact h4
  | none =>
    cases hX : X p with
    | none => rfl
    | some f =>
      exfalso
      obtain ⟨k, r, g1, g2, g3, g4, _⟩ := lX.acc p f hX
      rcases pY.rej p hY with h | ⟨K, R, h1, h2, h3, h4, h5⟩
      · obtain ⟨x, hx⟩ := it_le g1 g3; rw [h] at hx; simp at hx
      · have := core k K r R f g3 h3 g4 g2 h5
        subst this; rw [g4] at h4; simp at h4

/-- what may be exchanged in front of C: the same acceptance, and the same end wherever C goes on -/
def SameBefore (C A A' : Nat → Option Nat) (p : Nat) : Prop :=
  A p = A' p ∨ ((∃ e, A p = some e ∧ C e = none) ∧ (∃ e, A' p = some e ∧ C e = none))

/-- greedy.hpp `optimize` at the end of a group: C is what follows the group and is looked ahead for -/
theorem greedy_is_possessive_before (hm : Legal n m)
    (am : ∀ p e, p ≤ n → m p = some e → p < e → Bm (q p))
    (ac : ∀ p e, p < n → C p = some e → Bc (q p) ∨ ∀ r, r ≤ n → ∃ e, C r = some e)
    (dis : ∀ c, Bm c → ¬ Bc c) (gX : GreedyL m lo hi (fun r => (C r).isSome) X) (pY : PossC m lo hi some Y)
    {p : Nat} (hp : p ≤ n) : SameBefore C X Y p := by
  cases hY : Y p with
  | none =>
    rcases pY.rej p hY with h | ⟨K, R, _, _, _, h4, _⟩
    · cases hX : X p with
      | none => exact Or.inl (by rw [hX, hY])
      | some f => obtain ⟨k, g1, _, g3, _⟩ := gX.acc p f hX
                  obtain ⟨x, hx⟩ := it_le g1 g3; rw [h] at hx; simp at hx
    · simp at h4
  | some R' =>
    obtain ⟨K, R, h1, h2, h3, h4, h5⟩ := pY.acc p R' hY
    simp at h4; subst h4
    cases hX : X p with
    | none => have := gX.rej p hX; obtain ⟨x, hx⟩ := it_le h1 h3; rw [this] at hx; simp at hx
    | some f =>
      obtain ⟨k, g1, g2, g3, g4, g5⟩ := gX.acc p f hX
      cases hR : C R with
      | none =>
        have := earlier_rejects hm am ac dis hp g3 h3 h5 g2 hR
        exact Or.inr ⟨⟨f, hX, this⟩, ⟨R, hY, hR⟩⟩
      | some e =>
        left; rw [hX, hY]
        rcases Nat.lt_trichotomy k K with h | h | h
        · rcases g5 K h h2 with h' | h' | h'
          · rw [h3] at h'; simp at h'
          · have := h' R h3; simp [hR] at this
          · rw [h3, g3] at h'; simp at h'; rw [h']
        · subst h; rw [h3] at g3; exact g3.symm
        · rcases h5 k h g2 with h' | h'
          · rw [g3] at h'; simp at h'
          · rw [h3, g3] at h'; exact h'

/-- without a lookahead a greedy quantifier with nothing behind it takes all it can: it is possessive -/
theorem greedy_alone_is_possessive (gX : GreedyL m lo hi lookAll X) (pY : PossC m lo hi some Y) (p : Nat) : X p = Y p := by
  cases hY : Y p with
  | none =>
    rcases pY.rej p hY with h | ⟨K, R, _, _, _, h4, _⟩
    · cases hX : X p with
      | none => rfl
      | some f => obtain ⟨k, g1, _, g3, _⟩ := gX.acc p f hX
                  obtain ⟨x, hx⟩ := it_le g1 g3; rw [h] at hx; simp at hx
    · simp at h4
  | some R' =>
    obtain ⟨K, R, h1, h2, h3, h4, h5⟩ := pY.acc p R' hY
    simp at h4; subst h4
    cases hX : X p with
    | none => have := gX.rej p hX; obtain ⟨x, hx⟩ := it_le h1 h3; rw [this] at hx; simp at hx
    | some f =>
      obtain ⟨k, g1, g2, g3, _, g5⟩ := gX.acc p f hX
      rcases Nat.lt_trichotomy k K with h | h | h
      · rcases g5 K h h2 with h' | h' | h'
        · rw [h3] at h'; simp at h'
        · exact absurd trivial (h' R h3)
        · rw [h3, g3] at h'; exact h'.symm
      · subst h; rw [h3] at g3; exact g3.symm
      · rcases h5 k h g2 with h' | h'
        · rw [g3] at h'; simp at h'
        · rw [h3, g3] at h'; exact h'

/-! ### exchanging parts: nothing around them sees the difference -/
def seq (A C : Nat → Option Nat) : Nat → Option Nat := fun p => (A p).bind C
def alt (A B : Nat → Option Nat) : Nat → Option Nat := fun p => match A p with | some e => some e | none => B p

theorem same_group {A A' C : Nat → Option Nat} {p : Nat} (h : SameBefore C A A' p) : seq A C p = seq A' C p := by
  rcases h with h | ⟨⟨e, h1, h2⟩, ⟨f, h3, h4⟩⟩
  · simp [seq, h]
  · simp [seq, h1, h2, h3, h4]
theorem same_alt {A A' B B' C : Nat → Option Nat} {p : Nat} (h : SameBefore C A A' p) (h' : SameBefore C B B' p) :
    SameBefore C (alt A B) (alt A' B') p := by
  rcases h with h | ⟨⟨e, h1, h2⟩, ⟨f, h3, h4⟩⟩
  · cases hA : A p with
    | some e => left; simp [alt, ← h, hA]
    | none =>
      have hA' : A' p = none := by rw [← h, hA]
      rcases h' with h' | ⟨⟨e, h1, h2⟩, ⟨f, h3, h4⟩⟩
      · left; simp [alt, hA, hA', h']
      · right; exact ⟨⟨e, by simp [alt, hA, h1], h2⟩, ⟨f, by simp [alt, hA', h3], h4⟩⟩
  · right; exact ⟨⟨e, by simp [alt, h1], h2⟩, ⟨f, by simp [alt, h3], h4⟩⟩
theorem same_seq {A B B' C : Nat → Option Nat} (h : ∀ p, SameBefore C B B' p) (p : Nat) : SameBefore C (seq A B) (seq A B') p := by
  cases hA : A p with
  | none => left; simp [seq, hA]
  | some r =>
    rcases h r with h | ⟨⟨e, h1, h2⟩, ⟨f, h3, h4⟩⟩
    · left; simp [seq, hA, h]
    · right; exact ⟨⟨e, by simp [seq, hA, h1], h2⟩, ⟨f, by simp [seq, hA, h3], h4⟩⟩


/-! ### First characters: the announced sets -/
/-- contract of an announced set B: (first) a non-empty match starts with one of B; (other) before the end of the subject, a match
at a character outside B means that the matcher accepts everywhere, provided what is looked ahead for does; a lookahead never helps -/
structure Adm (n : Nat) (q : Nat → Nat) (X : Mat) (B : Nat → Prop) : Prop where
  legal : ∀ L, Legal n (X L)
  first : ∀ L p e, p ≤ n → X L p = some e → p < e → B (q p)
  other : ∀ L p e, p < n → X L p = some e → B (q p) ∨ ((∀ r, r ≤ n → L r) → ∀ r, r ≤ n → ∃ e, X L r = some e)
  help : ∀ L p e, X L p = some e → ∃ f, X lookAll p = some f
def LenMin (n : Nat) (X : Mat) (l : Nat) : Prop := ∀ L p e, p ≤ n → X L p = some e → p + l ≤ e

def seqM (A C : Mat) : Mat := fun L p => (A lookAll p).bind (C L)
def groupM (A C : Mat) : Mat := fun L p => (A (fun r => ∃ f, C lookAll r = some f) p).bind (C L)
def altM (A B : Mat) : Mat := fun L => alt (A L) (B L)
def lastM (A : Mat) : Mat := fun _ => A lookAll

variable {A B : Mat} {Ba Bb : Nat → Prop} {K : Mat} {Bk : Nat → Prop}

theorem adm_last (a : Adm n q A Ba) : Adm n q (lastM A) Ba :=
  ⟨fun _ => a.legal _, fun _ => a.first _, fun _ p e hp h => by
    rcases a.other _ p e hp h with b | b
    · exact Or.inl b
    · exact Or.inr fun _ => b fun _ _ => trivial, fun _ p e h => ⟨e, h⟩⟩

theorem adm_alt (a : Adm n q A Ba) (b : Adm n q B Bb) : Adm n q (altM A B) (fun c => Ba c ∨ Bb c) := by
  have inv : ∀ L p e, altM A B L p = some e → A L p = some e ∨ (A L p = none ∧ B L p = some e) := by
    intro L p e h
    cases hA : A L p with
    | none => right; simp [altM, alt, hA] at h; exact ⟨rfl, h⟩
    | some x => left; simp [altM, alt, hA] at h; rw [h]
  have mk : ∀ L p, ((∃ e, A L p = some e) ∨ ∃ e, B L p = some e) → ∃ e, altM A B L p = some e := by
    intro L p h
    cases hA : A L p with
    | some x => exact ⟨x, by simp [altM, alt, hA]⟩
    | none => rcases h with ⟨e, h⟩ | ⟨e, h⟩
              · rw [hA] at h; simp at h
              · exact ⟨e, by simp [altM, alt, hA, h]⟩
  refine ⟨?_, ?_, ?_, ?_⟩
  · intro L p e hp h
    rcases inv L p e h with h | ⟨_, h⟩
    · exact a.legal L p e hp h
    · exact b.legal L p e hp h
  · intro L p e hp h hlt
    rcases inv L p e h with h | ⟨_, h⟩
    · exact Or.inl (a.first L p e hp h hlt)
    · exact Or.inr (b.first L p e hp h hlt)
  · intro L p e hp h
    rcases inv L p e h with h | ⟨_, h⟩
    · rcases a.other L p e hp h with x | x
      · exact Or.inl (Or.inl x)
      · exact Or.inr fun hL r hr => mk L r (Or.inl (x hL r hr))
    · rcases b.other L p e hp h with x | x
      · exact Or.inl (Or.inr x)
      · exact Or.inr fun hL r hr => mk L r (Or.inr (x hL r hr))
  · intro L p e h
    rcases inv L p e h with h | ⟨_, h⟩
    · exact mk lookAll p (Or.inl (a.help L p e h))
    · exact mk lookAll p (Or.inr (b.help L p e h))

/-- an element followed by its continuation, the element tried with the lookahead La -/
theorem adm_then (La : Look) (hLa : (∀ r, r ≤ n → ∃ f, K lookAll r = some f) → ∀ r, r ≤ n → La r)
    (a : Adm n q A Ba) (k : Adm n q K Bk) (l : Nat) (len : LenMin n A l) {Bs : Nat → Prop}
    (hB : ∀ c, Ba c → Bs c) (hB' : l = 0 → ∀ c, Bk c → Bs c) : Adm n q (fun L p => (A La p).bind (K L)) Bs := by
  have inv : ∀ L p e, (A La p).bind (K L) = some e → ∃ r, A La p = some r ∧ K L r = some e := by
    intro L p e h
    cases hA : A La p with
    | none => rw [hA] at h; simp at h
    | some r => rw [hA] at h; exact ⟨r, rfl, h⟩
  refine ⟨?_, ?_, ?_, ?_⟩
  · intro L p e hp h
    obtain ⟨r, h1, h2⟩ := inv L p e h
    have x := a.legal La p r hp h1
    have y := k.legal L r e x.2 h2
    omega
  · intro L p e hp h hlt
    obtain ⟨r, h1, h2⟩ := inv L p e h
    have x := a.legal La p r hp h1
    have z := len La p r hp h1
    rcases Nat.lt_or_ge p r with hpr | hpr
    · exact hB _ (a.first La p r hp h1 hpr)
    · have : r = p := by omega
      subst this; exact hB' (by omega) _ (k.first L r e hp h2 hlt)
  · intro L p e hp h
    obtain ⟨r, h1, h2⟩ := inv L p e h
    have x := a.legal La p r (by omega) h1
    have z := len La p r (by omega) h1
    rcases Nat.lt_or_ge p r with hpr | hpr
    · exact Or.inl (hB _ (a.first La p r (by omega) h1 hpr))
    · have : r = p := by omega
      subst this
      rcases k.other L r e hp h2 with y | y
      · exact Or.inl (hB' (by omega) _ y)
      · rcases a.other La r r hp h1 with w | w
        · exact Or.inl (hB _ w)
        · obtain ⟨f, hf⟩ := k.help L r e h2
          rcases k.other lookAll r f hp hf with y' | y'
          · exact Or.inl (hB' (by omega) _ y')
          · refine Or.inr fun hL s hs => ?_
            obtain ⟨t, ht⟩ := w (hLa (y' fun _ _ => trivial)) s hs
            obtain ⟨u, hu⟩ := y hL t (a.legal La s t hs ht).2
            exact ⟨u, by simp [ht, hu]⟩
  · intro L p e h
    obtain ⟨r, h1, h2⟩ := inv L p e h
    obtain ⟨f, hf⟩ := k.help L r e h2
    exact ⟨f, by simp [h1, hf]⟩

/-- simple<A, C...>: the set of A, and that of what follows if A can match nothing -/
theorem adm_seq (a : Adm n q A Ba) (k : Adm n q K Bk) (l : Nat) (len : LenMin n A l) :
    Adm n q (seqM A K) (fun c => Ba c ∨ (l = 0 ∧ Bk c)) :=
  adm_then lookAll (fun _ _ _ => trivial) a k l len (fun _ => Or.inl) (fun h _ b => Or.inr ⟨h, b⟩)
/-- group<A, i, C...> -/
theorem adm_group (a : Adm n q A Ba) (k : Adm n q K Bk) (l : Nat) (len : LenMin n A l) :
    Adm n q (groupM A K) (fun c => Ba c ∨ (l = 0 ∧ Bk c)) :=
  adm_then _ (fun h r hr => h r hr) a k l len (fun _ => Or.inl) (fun h _ b => Or.inr ⟨h, b⟩)

/-- what the contracts of repeated, greedy, lazy and possessive have in common (C is `some` when nothing follows) -/
structure RepC (n : Nat) (m : Nat → Option Nat) (lo hi : Nat) (C : Nat → Option Nat) (X : Mat) : Prop where
  acc : ∀ L p e, X L p = some e → ∃ k r, lo ≤ k ∧ k ≤ hi ∧ it m k p = some r ∧ C r = some e
  rej : ∀ L p, (∀ r, r ≤ n → L r) → p ≤ n → X L p = none → it m lo p = none ∨ ∃ r, r ≤ n ∧ C r = none
  help : ∀ L p e, X L p = some e → ∃ f, X lookAll p = some f

theorem it_len {n : Nat} {m : Nat → Option Nat} (hm : Legal n m) {l : Nat} (hl : ∀ p e, p ≤ n → m p = some e → p + l ≤ e) :
    ∀ k p r, p ≤ n → it m k p = some r → p + l * k ≤ r := by
  intro k
  induction k with
  | zero => intro p r hp h; simp [it] at h; simp; omega
  | succ k ih =>
    intro p r hp h
    rw [it_succ] at h
    cases hs : it m k p with
    | none => rw [hs] at h; simp at h
    | some s =>
      rw [hs] at h; simp at h
      have a := ih p s hp hs
      have b := hl s r (it_legal hm k p s hp hs).2 h
      rw [Nat.mul_succ]; omega
theorem it_max {n : Nat} {m : Nat → Option Nat} (hm : Legal n m) {u : Nat} (hu : ∀ p e, p ≤ n → m p = some e → e ≤ p + u) :
    ∀ k p r, p ≤ n → it m k p = some r → r ≤ p + u * k := by
  intro k
  induction k with
  | zero => intro p r hp h; simp [it] at h; simp; omega
  | succ k ih =>
    intro p r hp h
    rw [it_succ] at h
    cases hs : it m k p with
    | none => rw [hs] at h; simp at h
    | some s =>
      rw [hs] at h; simp at h
      have a := ih p s hp hs
      have b := hu s r (it_legal hm k p s hp hs).2 h
      rw [Nat.mul_succ]; omega
theorem it_everywhere {n : Nat} {m : Nat → Option Nat} (hm : Legal n m) (h : ∀ r, r ≤ n → ∃ e, m r = some e) :
    ∀ k r, r ≤ n → ∃ e, it m k r = some e := by
  intro k
  induction k with
  | zero => intro r _; exact ⟨r, rfl⟩
  | succ k ih =>
    intro r hr
    obtain ⟨s, hs⟩ := ih r hr
    obtain ⟨e, he⟩ := h s (it_legal hm k r s hr hs).2
    exact ⟨e, by rw [it_succ, hs]; simpa using he⟩

/-- every quantifier: the set of its element, and that of what follows if the element may be skipped or match nothing -/
theorem adm_rep {M : Mat} {X : Mat} {Bm : Nat → Prop} (a : Adm n q M Bm) (k : Adm n q K Bk) (l : Nat)
    (len : LenMin n M l) (c : RepC n (M lookAll) lo hi (K lookAll) X) :
    Adm n q X (fun x => Bm x ∨ ((lo = 0 ∨ l = 0) ∧ Bk x)) := by
  have hm := a.legal lookAll
  have skip : ∀ j p, p ≤ n → lo ≤ j → it (M lookAll) j p = some p → lo = 0 ∨ l = 0 := by
    intro j p hp hj h
    have := it_len hm (fun p e => len lookAll p e) j p p hp h
    have h0 : l * j = 0 := by omega
    rcases Nat.mul_eq_zero.mp h0 with h | h
    · exact Or.inr h
    · exact Or.inl (by omega)
  refine ⟨?_, ?_, ?_, c.help⟩
  · intro L p e hp h
    obtain ⟨j, r, _, _, h3, h4⟩ := c.acc L p e h
    have x := it_legal hm j p r hp h3
    have y := k.legal lookAll r e x.2 h4
    omega
  · intro L p e hp h hlt
    obtain ⟨j, r, h1, _, h3, h4⟩ := c.acc L p e h
    have x := it_legal hm j p r hp h3
    rcases Nat.lt_or_ge p r with hpr | hpr
    · obtain ⟨e', h5, h6⟩ := it_leaves hm hp (j := 0) rfl (Nat.zero_le j) h3 hpr
      exact Or.inl (a.first lookAll p e' hp h5 h6)
    · have : r = p := by omega
      subst this; exact Or.inr ⟨skip j r hp h1 h3, k.first lookAll r e hp h4 hlt⟩
  · intro L p e hp h
    obtain ⟨j, r, h1, _, h3, h4⟩ := c.acc L p e h
    have x := it_legal hm j p r (by omega) h3
    rcases Nat.lt_or_ge p r with hpr | hpr
    · obtain ⟨e', h5, h6⟩ := it_leaves hm (by omega) (j := 0) rfl (Nat.zero_le j) h3 hpr
      exact Or.inl (Or.inl (a.first lookAll p e' (by omega) h5 h6))
    · have : r = p := by omega
      subst this
      rcases k.other lookAll r e hp h4 with y | y
      · exact Or.inl (Or.inr ⟨skip j r (by omega) h1 h3, y⟩)
      · -- what follows accepts everywhere; so does the element, if it has to be there at all
        have step : lo = 0 ∨ (Bm (q r) ∨ ∀ s, s ≤ n → ∃ e, M lookAll s = some e) := by
          rcases Nat.eq_zero_or_pos lo with h0 | h0
          · exact Or.inl h0
          · right
            obtain ⟨f, hf⟩ := it_le (show 1 ≤ j by omega) h3
            have hf' : M lookAll r = some f := by simpa [it] using hf
            rcases a.other lookAll r f hp hf' with w | w
            · exact Or.inl w
            · exact Or.inr (w fun _ _ => trivial)
        have fin : (∀ s, s ≤ n → ∃ e, it (M lookAll) lo s = some e) →
            ((∀ r, r ≤ n → L r) → ∀ s, s ≤ n → ∃ e, X L s = some e) := by
          intro ev hL s hs
          cases hx : X L s with
          | some e => exact ⟨e, rfl⟩
          | none =>
            exfalso
            rcases c.rej L s hL hs hx with h' | ⟨t, ht, h'⟩
            · obtain ⟨e, he⟩ := ev s hs; rw [h'] at he; simp at he
            · obtain ⟨e, he⟩ := y (fun _ _ => trivial) t ht; rw [h'] at he; simp at he
        rcases step with h0 | h0 | h0
        · exact Or.inr (fin fun s _ => ⟨s, by rw [h0]; rfl⟩)
        · exact Or.inl (Or.inl h0)
        · exact Or.inr (fin (it_everywhere hm h0 lo))

/-- `some`, for a quantifier with nothing behind it, announces no character -/
theorem adm_nothing : Adm n q (fun _ => some) (fun _ => False) :=
  ⟨fun _ p e hp h => by simp at h; omega, fun _ p e _ h hlt => by simp at h; omega,
   fun _ p e _ _ => Or.inr fun _ r _ => ⟨r, rfl⟩, fun _ p e h => ⟨e, h⟩⟩

/-! the contracts of the four quantifiers imply it -/
theorem rep_of_greedy {C X : Nat → Option Nat} (g : GreedyC m lo hi C X) (h : lo ≤ hi) (hm : Legal n m) :
    RepC n m lo hi C (fun _ => X) :=
  ⟨fun _ p e hx => by obtain ⟨k, r, a, b, c, d, _⟩ := g.acc p e hx; exact ⟨k, r, a, b, c, d⟩,
   fun _ p _ hp hx => by
     cases hs : it m lo p with
     | none => exact Or.inl rfl
     | some r => exact Or.inr ⟨r, (it_legal hm lo p r hp hs).2, g.rej p hx lo r (Nat.le_refl _) h hs⟩,
   fun _ p e hx => ⟨e, hx⟩⟩
theorem rep_of_lazy {C X : Nat → Option Nat} (g : LazyC m lo hi C X) (h : lo ≤ hi) (hm : Legal n m) :
    RepC n m lo hi C (fun _ => X) :=
  ⟨fun _ p e hx => by obtain ⟨k, r, a, b, c, d, _⟩ := g.acc p e hx; exact ⟨k, r, a, b, c, d⟩,
   fun _ p _ hp hx => by
     cases hs : it m lo p with
     | none => exact Or.inl rfl
     | some r => exact Or.inr ⟨r, (it_legal hm lo p r hp hs).2, g.rej p hx lo r (Nat.le_refl _) h hs⟩,
   fun _ p e hx => ⟨e, hx⟩⟩
theorem rep_of_possessive {C X : Nat → Option Nat} (g : PossC m lo hi C X) (hm : Legal n m) :
    RepC n m lo hi C (fun _ => X) :=
  ⟨fun _ p e hx => by obtain ⟨k, r, a, b, c, d, _⟩ := g.acc p e hx; exact ⟨k, r, a, b, c, d⟩,
   fun _ p _ hp hx => by
     rcases g.rej p hx with h | ⟨k, r, _, _, c, d, _⟩
     · exact Or.inl h
     · exact Or.inr ⟨r, (it_legal hm k p r hp c).2, d⟩,
   fun _ p e hx => ⟨e, hx⟩⟩
theorem rep_of_greedy_last {X : Mat} (g : ∀ L, GreedyL m lo hi L (X L)) : RepC n m lo hi some X :=
  ⟨fun L p e hx => by obtain ⟨k, a, b, c, _⟩ := (g L).acc p e hx; exact ⟨k, e, a, b, c, rfl⟩,
   fun L p _ _ hx => Or.inl ((g L).rej p hx),
   fun L p e hx => by
     cases h : X lookAll p with
     | some f => exact ⟨f, rfl⟩
     | none => obtain ⟨k, a, _, c, _⟩ := (g L).acc p e hx
               have := (g lookAll).rej p h
               obtain ⟨y, hy⟩ := it_le a c; rw [this] at hy; simp at hy⟩
/-- lazy.hpp with nothing behind it: the lookahead takes the place of the continuation -/
structure LazyL (m : Nat → Option Nat) (lo hi : Nat) (L : Look) (X : Nat → Option Nat) : Prop where
  acc : ∀ p e, X p = some e → ∃ k, lo ≤ k ∧ k ≤ hi ∧ it m k p = some e ∧ L e
  rej : ∀ p, X p = none → ∀ k r, lo ≤ k → k ≤ hi → it m k p = some r → ¬ L r
theorem rep_of_lazy_last {X : Mat} (h : lo ≤ hi) (hm : Legal n m) (g : ∀ L, LazyL m lo hi L (X L)) : RepC n m lo hi some X :=
  ⟨fun L p e hx => by obtain ⟨k, a, b, c, _⟩ := (g L).acc p e hx; exact ⟨k, e, a, b, c, rfl⟩,
   fun L p hL hp hx => by
     cases hs : it m lo p with
     | none => exact Or.inl rfl
     | some r => exact absurd (hL r (it_legal hm lo p r hp hs).2) ((g L).rej p hx lo r (Nat.le_refl _) h hs),
   fun L p e hx => by
     cases h' : X lookAll p with
     | some f => exact ⟨f, rfl⟩
     | none => obtain ⟨k, a, b, c, _⟩ := (g L).acc p e hx
               exact absurd trivial ((g lookAll).rej p h' k e a b c)⟩

/-! ### Announced lengths -/
def LenMax (n : Nat) (X : Mat) (u : Nat) : Prop := ∀ L p e, p ≤ n → X L p = some e → e ≤ p + u
theorem len_then (La : Look) (hA : Legal n (A La)) {l l' u u' : Nat} (a : LenMin n A l) (k : LenMin n K l') (a' : LenMax n A u) (k' : LenMax n K u') :
    LenMin n (fun L p => (A La p).bind (K L)) (l + l') ∧ LenMax n (fun L p => (A La p).bind (K L)) (u + u') := by
  constructor <;> intro L p e hp h <;> simp only at h
  all_goals
    cases hA' : A La p with
    | none => rw [hA'] at h; simp at h
    | some r =>
      rw [hA'] at h; simp at h
      have x := hA p r hp hA'
      have := a La p r hp hA'; have := k L r e x.2 h; have := a' La p r hp hA'; have := k' L r e x.2 h
      omega
theorem len_alt {l l' u u' : Nat} (a : LenMin n A l) (b : LenMin n B l') (a' : LenMax n A u) (b' : LenMax n B u') :
    LenMin n (altM A B) (min l l') ∧ LenMax n (altM A B) (max u u') := by
  constructor <;> intro L p e hp h
  all_goals
    cases hA : A L p with
    | some r => simp [altM, alt, hA] at h; subst h; have := a L p r hp hA; have := a' L p r hp hA; omega
    | none => simp [altM, alt, hA] at h; have := b L p e hp h; have := b' L p e hp h; omega
theorem len_rep {M X : Mat} (hm : Legal n (M lookAll)) {l l' u u' : Nat} (a : LenMin n M l) (k : LenMin n K l') (a' : LenMax n M u)
    (k' : LenMax n K u') (c : RepC n (M lookAll) lo hi (K lookAll) X) : LenMin n X (l * lo + l') ∧ LenMax n X (u * hi + u') := by
  constructor <;> intro L p e hp h
  all_goals
    obtain ⟨j, r, h1, h2, h3, h4⟩ := c.acc L p e h
    have x := it_legal hm j p r hp h3
    have y := it_len hm (fun p e => a lookAll p e) j p r hp h3
    have z := it_max hm (fun p e => a' lookAll p e) j p r hp h3
    have := k lookAll r e x.2 h4; have := k' lookAll r e x.2 h4
    have := Nat.mul_le_mul_left l h1; have := Nat.mul_le_mul_left u h2
    omega

/-! ### Iterating (match_result::next) -/
/-- the matches a result goes through: the next one is the leftmost that starts where the contract of next() says -/
inductive Run (n : Nat) (ok : Nat → Prop) : Nat → List (Nat × Nat) → Prop
  | stop {from_} : (∀ p, from_ ≤ p → p ≤ n → ¬ ok p) → Run n ok from_ []
  | next {from_ s e l} : from_ ≤ s → s ≤ e → e ≤ n → ok s → (∀ p, from_ ≤ p → p < s → ¬ ok p) →
      Run n ok (if e = s then e + 1 else e) l → Run n ok from_ ((s, e) :: l)

theorem run_bound {ok : Nat → Prop} {f : Nat} {l : List (Nat × Nat)} (r : Run n ok f l) : f ≤ n + 1 → l.length + f ≤ n + 1 := by
  induction r with
  | stop => intro h; simpa using h
  | @next f s e l h1 h2 h3 _ _ _ ih =>
    intro _
    have : (if e = s then e + 1 else e) ≤ n + 1 := by split <;> omega
    have := ih this
    have : s + 1 ≤ (if e = s then e + 1 else e) := by split <;> omega
    simp; omega
theorem run_from {ok : Nat → Prop} {f : Nat} {l : List (Nat × Nat)} (r : Run n ok f l) : ∀ x ∈ l, f ≤ x.1 := by
  induction r with
  | stop => intro x h; simp at h
  | @next f s e l h1 h2 h3 _ _ _ ih =>
    intro x hx
    simp at hx
    rcases hx with rfl | hx
    · exact h1
    · have := ih x hx
      have : s ≤ (if e = s then e + 1 else e) := by split <;> omega
      omega
/-- later matches start behind the earlier ones, strictly -/
theorem run_disjoint {ok : Nat → Prop} {f s e : Nat} {l : List (Nat × Nat)} (r : Run n ok f ((s, e) :: l)) : ∀ x ∈ l, e ≤ x.1 ∧ s < x.1 := by
  cases r with
  | next h1 h2 h3 _ _ r' =>
    intro x hx
    have := run_from r' x hx
    split at this <;> omega
/-- no start is skipped: one that accepts is reported, or lies in an earlier match -/
theorem run_complete {ok : Nat → Prop} {f : Nat} {l : List (Nat × Nat)} (r : Run n ok f l) :
    ∀ p, f ≤ p → p ≤ n → ok p → ∃ x ∈ l, x.1 = p ∨ (x.1 < p ∧ p < x.2) := by
  induction r with
  | stop h => intro p a b c; exact absurd c (h p a b)
  | @next f s e l h1 h2 h3 h4 h5 _ ih =>
    intro p a b c
    rcases Nat.lt_trichotomy p s with h | h | h
    · exact absurd c (h5 p a h)
    · exact ⟨(s, e), by simp, Or.inl h.symm⟩
    · rcases Nat.lt_or_ge p e with he | he
      · exact ⟨(s, e), by simp, Or.inr ⟨h, he⟩⟩
      · obtain ⟨x, hx, hx'⟩ := ih p (by split <;> omega) b c
        exact ⟨x, by simp [hx], hx'⟩
/-- two runs report the same starts as long as the positions that accept are the same: begin()/++ and next() agree -/
theorem run_unique {ok : Nat → Prop} {en : Nat → Nat} {f : Nat} {l l' : List (Nat × Nat)} (r : Run n ok f l) (r' : Run n ok f l')
    (h : ∀ x ∈ l, x.2 = en x.1) (h' : ∀ x ∈ l', x.2 = en x.1) : l = l' := by
  induction r generalizing l' with
  | stop a =>
    cases r' with
    | stop => rfl
    | next b1 b2 b3 b4 => exact absurd b4 (a _ b1 (by omega))
  | @next f s e l a1 a2 a3 a4 a5 _ ih =>
    cases r' with
    | stop b => exact absurd a4 (b _ a1 (by omega))
    | @next _ s' e' l2 b1 b2 b3 b4 b5 r2 =>
      have hs : s = s' := by
        rcases Nat.lt_trichotomy s s' with x | x | x
        · exact absurd a4 (b5 s a1 x)
        · exact x
        · exact absurd b4 (a5 s' b1 x)
      subst hs
      have e1 := h (s, e) (by simp); have e2 := h' (s, e') (by simp)
      simp at e1 e2
      have : e = e' := by omega
      subst this
      rw [ih r2 (fun x hx => h x (by simp [hx])) (fun x hx => h' x (by simp [hx]))]

/-! ### Sets of characters: sorted lists (admitted_set.hpp). The equations are those the step obligations check. -/
def merge : List Int → List Int → List Int
  | [], b => b
  | a, [] => a
  | x :: a, y :: b => if x = y then x :: merge a b else if x < y then x :: merge a (y :: b) else y :: merge (x :: a) b
termination_by a b => a.length + b.length
def inter : List Int → List Int → List Int
  | [], _ => []
  | _, [] => []
  | x :: a, y :: b => if x = y then x :: inter a b else if x < y then inter a (y :: b) else inter (x :: a) b
termination_by a b => a.length + b.length
def symd : List Int → List Int → List Int
  | [], b => b
  | a, [] => a
  | x :: a, y :: b => if x = y then symd a b else if x < y then x :: symd a (y :: b) else y :: symd (x :: a) b
termination_by a b => a.length + b.length

def Sorted (l : List Int) : Prop := l.Pairwise (· < ·)
theorem sorted_tail {x : Int} {l : List Int} (h : Sorted (x :: l)) : Sorted l := (List.pairwise_cons.mp h).2
theorem sorted_head {x : Int} {l : List Int} (h : Sorted (x :: l)) : ∀ y ∈ l, x < y := (List.pairwise_cons.mp h).1
theorem not_mem_of_lt {c x : Int} {l : List Int} (h : Sorted (x :: l)) (hc : c < x) : c ∉ x :: l := by
  intro hm; simp at hm
  rcases hm with rfl | hm
  · omega
  · have := sorted_head h c hm; omega

theorem mem_merge (a b : List Int) (c : Int) : c ∈ merge a b ↔ c ∈ a ∨ c ∈ b := by
  fun_induction merge a b <;> simp_all <;> grind
theorem mem_inter (a b : List Int) (ha : Sorted a) (hb : Sorted b) (c : Int) : c ∈ inter a b ↔ c ∈ a ∧ c ∈ b := by
  fun_induction inter a b with
  | case1 => simp
  | case2 => simp
  | case3 x a b ih =>
    have h1 := ih (sorted_tail ha) (sorted_tail hb); simp [h1]
    have := sorted_head ha c; have := sorted_head hb c
    grind
  | case4 x a y b h1 h2 ih =>
    rw [ih (sorted_tail ha) hb]
    have := not_mem_of_lt hb h2
    grind
  | case5 x a y b h1 h2 ih =>
    rw [ih ha (sorted_tail hb)]
    have := not_mem_of_lt ha (by omega : y < x)
    grind
theorem mem_symd (a b : List Int) (ha : Sorted a) (hb : Sorted b) (c : Int) : c ∈ symd a b ↔ (c ∈ a ∧ c ∉ b) ∨ (c ∉ a ∧ c ∈ b) := by
  fun_induction symd a b with
  | case1 => simp
  | case2 => simp
  | case3 x a b ih =>
    have h1 := ih (sorted_tail ha) (sorted_tail hb); rw [h1]
    have := sorted_head ha c; have := sorted_head hb c
    grind
  | case4 x a y b h1 h2 ih =>
    have h3 := ih (sorted_tail ha) hb
    have := not_mem_of_lt hb h2; have := sorted_head ha c
    grind
  | case5 x a y b h1 h2 ih =>
    have h3 := ih ha (sorted_tail hb)
    have := not_mem_of_lt ha (by omega : y < x); have := sorted_head hb c
    grind
theorem sorted_merge (a b : List Int) (ha : Sorted a) (hb : Sorted b) : Sorted (merge a b) := by
  fun_induction merge a b with
  | case1 => exact hb
  | case2 => exact ha
  | case3 x a b ih =>
    refine List.pairwise_cons.mpr ⟨fun z hz => ?_, ih (sorted_tail ha) (sorted_tail hb)⟩
    rcases (mem_merge _ _ _).mp hz with h | h
    · exact sorted_head ha z h
    · exact sorted_head hb z h
  | case4 x a y b h1 h2 ih =>
    refine List.pairwise_cons.mpr ⟨fun z hz => ?_, ih (sorted_tail ha) hb⟩
    rcases (mem_merge _ _ _).mp hz with h | h
    · exact sorted_head ha z h
    · have := sorted_head hb z; grind
  | case5 x a y b h1 h2 ih =>
    refine List.pairwise_cons.mpr ⟨fun z hz => ?_, ih ha (sorted_tail hb)⟩
    rcases (mem_merge _ _ _).mp hz with h | h
    · have := sorted_head ha z; grind
    · exact sorted_head hb z h
theorem sorted_inter (a b : List Int) (ha : Sorted a) (hb : Sorted b) : Sorted (inter a b) := by
  fun_induction inter a b with
  | case1 => simp [Sorted]
  | case2 => simp [Sorted]
  | case3 x a b ih =>
    refine List.pairwise_cons.mpr ⟨fun z hz => ?_, ih (sorted_tail ha) (sorted_tail hb)⟩
    exact sorted_head ha z ((mem_inter _ _ (sorted_tail ha) (sorted_tail hb) z).mp hz).1
  | case4 x a y b h1 h2 ih => exact ih (sorted_tail ha) hb
  | case5 x a y b h1 h2 ih => exact ih ha (sorted_tail hb)
/-- the difference with all characters is the complement -/
theorem mem_complement (a all : List Int) (ha : Sorted a) (hall : Sorted all) (sub : ∀ c ∈ a, c ∈ all) (c : Int) :
    c ∈ symd a all ↔ c ∈ all ∧ c ∉ a := by
  rw [mem_symd a all ha hall]
  have := sub c
  grind

/-! ### Decimal numbers (pack_string_to_number.hpp) -/
def value : List Nat → Nat
  | [] => 0
  | d :: l => d * 10 ^ l.length + value l
theorem value_horner (l : List Nat) : ∀ a, l.foldl (fun v d => v * 10 + d) a = a * 10 ^ l.length + value l := by
  induction l with
  | nil => intro a; simp [value]
  | cons d l ih => intro a; simp [List.foldl, ih, value, Nat.pow_succ]; grind
end ERegex
