-- Trees over the prefix algebra: the compressed tree of a mapping is unique,
-- hence so is its Merkle value; folding a proof is sound and complete.
-- (The definitions are those of Bits.lean; lemmas/README lists what in the
-- C contracts each theorem composes.)
abbrev Bs := Nat → Bool

/-- the n bits of v equal key[d..d+n), all within the 256 bits of a key -/
def has (v : Bs) (n : Nat) (k : Bs) (d : Nat) : Prop := d + n ≤ 256 ∧ ∀ i, i < n → v i = k (d + i)
def slice (v : Bs) (s e : Nat) : Bs := fun i => if i < e - s then v (s + i) else false
def join (l : Bs) (ls : Nat) (r : Bs) (rs : Nat) (b : Bool) : Bs :=
  fun i => if i < ls then l i else if i = ls then b else if i < ls + 1 + rs then r (i - (ls + 1)) else false
/-- path P (d bits), then n bits of v, then bit b -/
def ext (P : Bs) (d : Nat) (v : Bs) (n : Nat) (b : Bool) : Bs :=
  fun i => if i < d then P i else if i < d + n then v (i - d) else if i = d + n then b else false
def under (k P : Bs) (d : Nat) : Prop := ∀ i, i < d → k i = P i
def tz (v : Bs) (n : Nat) : Prop := ∀ i, n ≤ i → v i = false
/-- c is the number of common bits of v[0..n) and k[d..256) -/
def isCount (c : Nat) (v : Bs) (n : Nat) (k : Bs) (d : Nat) : Prop :=
  c ≤ n ∧ d + c ≤ 256 ∧ (∀ i, i < c → v i = k (d + i)) ∧ (c < n → d + c < 256 → v c ≠ k (d + c))


open Classical

variable {V H : Type}

inductive T (V : Type) where
  | leaf (k : Bs) (v : V) : T V
  | node (n : Nat) (p : Bs) (l r : T V) : T V

def norm (k : Bs) : Prop := ∀ i, 256 ≤ i → k i = false

/-- shape invariant established by every step obligation "tree shape: ..." -/
def WF (d : Nat) (P : Bs) : T V → Prop
  | .leaf k _ => norm k ∧ under k P d
  | .node n p l r => d + n < 256 ∧ tz p n ∧ WF (d + n + 1) (ext P d p n false) l ∧ WF (d + n + 1) (ext P d p n true) r

/-- what a lookup yields: the abstraction function of harness/ghost.h (look_leaf, look_int) -/
noncomputable def look (d : Nat) : T V → Bs → Option V
  | .leaf k v, q => if k = q then some v else none
  | .node n p l r, q =>
      if has p n q d then (if q (d + n) = true then look (d + n + 1) r q else look (d + n + 1) l q) else none

theorem under_ext_mp {k P v : Bs} {d n : Nat} {b : Bool} (hd : d + n ≤ 256)
    (h : under k (ext P d v n b) (d + n + 1)) : under k P d ∧ has v n k d ∧ k (d + n) = b := by
  refine ⟨fun i hi => ?_, ⟨hd, fun i hi => ?_⟩, ?_⟩
  · have := h i (by omega); simp [ext, hi] at this; exact this
  · have h1 := h (d + i) (by omega)
    have a1 : d + i < d + n := by omega
    have a0 : ¬ d + i < d := by omega
    have a2 : d + i - d = i := by omega
    simp only [ext, a0, a1, a2, if_true, if_false] at h1; exact h1.symm
  · have := h (d + n) (by omega)
    have a0 : ¬ d + n < d := by omega
    have a1 : ¬ d + n < d + n := by omega
    simp only [ext, a0, a1, if_true, if_false] at this; exact this

/-- a key found below a position lies on its path -/
theorem found_under (t : T V) : ∀ (d : Nat) (P : Bs) (q : Bs), WF d P t → look d t q ≠ none → under q P d ∧ norm q := by
  induction t with
  | leaf k v =>
    intro d P q hw hf
    simp only [look] at hf
    by_cases e : k = q
    · subst e; exact ⟨hw.2, hw.1⟩
    · simp [e] at hf
  | node n p l r ihl ihr =>
    intro d P q hw hf
    obtain ⟨h1, h2, h3, h4⟩ := hw
    simp only [look] at hf
    by_cases hh : has p n q d
    · simp only [hh, if_true] at hf
      by_cases hb : q (d + n) = true
      · simp only [hb, if_true] at hf
        have := ihr _ _ q h4 hf
        exact ⟨(under_ext_mp (by omega) this.1).1, this.2⟩
      · simp only [hb] at hf
        have := ihl _ _ q h3 hf
        exact ⟨(under_ext_mp (by omega) this.1).1, this.2⟩
    · simp [hh] at hf

/-- no empty subtrees -/
theorem inhabited (t : T V) : ∀ (d : Nat) (P : Bs), WF d P t → ∃ q v, look d t q = some v := by
  induction t with
  | leaf k v => intro d P _; exact ⟨k, v, by simp [look]⟩
  | node n p l r ihl _ =>
    intro d P hw
    obtain ⟨h1, h2, h3, h4⟩ := hw
    obtain ⟨q, v, hq⟩ := ihl _ _ h3
    have hu := found_under l _ _ q h3 (by rw [hq]; simp)
    have := under_ext_mp (by omega) hu.1
    refine ⟨q, v, ?_⟩
    simp [look, this.2.1, this.2.2, hq]

theorem look_left {n d : Nat} {p P q : Bs} {l r : T V} (hw : WF d P (.node n p l r))
    (hu : under q (ext P d p n false) (d + n + 1)) : look d (.node n p l r) q = look (d + n + 1) l q := by
  have := under_ext_mp (by have := hw.1; omega) hu
  simp [look, this.2.1, this.2.2]

theorem look_right {n d : Nat} {p P q : Bs} {l r : T V} (hw : WF d P (.node n p l r))
    (hu : under q (ext P d p n true) (d + n + 1)) : look d (.node n p l r) q = look (d + n + 1) r q := by
  have := under_ext_mp (by have := hw.1; omega) hu
  simp [look, this.2.1, this.2.2]

/-- keys on both sides of an inner node: they have the prefix and differ right after it -/
theorem two_keys {n d : Nat} {p P : Bs} {l r : T V} (hw : WF d P (.node n p l r)) :
    ∃ a b va vb, look d (.node n p l r) a = some va ∧ look d (.node n p l r) b = some vb ∧
      has p n a d ∧ has p n b d ∧ a (d + n) = false ∧ b (d + n) = true := by
  obtain ⟨h1, h2, h3, h4⟩ := id hw
  obtain ⟨a, va, ha⟩ := inhabited l _ _ h3
  obtain ⟨b, vb, hb⟩ := inhabited r _ _ h4
  have ua := (found_under l _ _ a h3 (by rw [ha]; simp)).1
  have ub := (found_under r _ _ b h4 (by rw [hb]; simp)).1
  have xa := under_ext_mp (by omega) ua
  have xb := under_ext_mp (by omega) ub
  exact ⟨a, b, va, vb, by rw [look_left hw ua, ha], by rw [look_right hw ub, hb], xa.2.1, xb.2.1, xa.2.2, xb.2.2⟩

theorem node_has {n d : Nat} {p : Bs} {l r : T V} {q : Bs} {v : V}
    (h : look d (.node n p l r) q = some v) : has p n q d := by
  by_cases hh : has p n q d
  · exact hh
  · simp [look, hh] at h

theorem leaf_node_ne {d n : Nat} {P p k : Bs} {v : V} {l r : T V}
    (hw : WF d P (.node n p l r)) (he : ∀ q, look d (.leaf k v) q = look d (.node n p l r) q) : False := by
  obtain ⟨a, b, va, vb, ha, hb, _, _, fa, fb⟩ := two_keys hw
  have e1 := he a; have e2 := he b
  rw [ha] at e1; rw [hb] at e2
  simp only [look] at e1 e2
  by_cases k1 : k = a
  · by_cases k2 : k = b
    · subst k1; subst k2; rw [fa] at fb; simp at fb
    · simp [k2] at e2
  · simp [k1] at e1

theorem prefix_le {d n n' : Nat} {P p p' : Bs} {l r l' r' : T V}
    (hw : WF d P (.node n p l r))
    (he : ∀ q, look d (.node n p l r) q = look d (.node n' p' l' r') q) : n' ≤ n := by
  refine Nat.le_of_not_lt fun lt => ?_
  obtain ⟨a, b, va, vb, ha, hb, _, _, fa, fb⟩ := two_keys hw
  rw [he a] at ha; rw [he b] at hb
  have x := (node_has ha).2 n lt; have y := (node_has hb).2 n lt
  rw [fa] at x; rw [fb] at y; rw [x] at y; simp at y

/-- The compressed tree of a mapping is unique. -/
theorem canonical (t : T V) : ∀ (t' : T V) (d : Nat) (P : Bs), WF d P t → WF d P t' →
    (∀ q, look d t q = look d t' q) → t = t' := by
  induction t with
  | leaf k v =>
    intro t' d P hw hw' he
    cases t' with
    | leaf k' v' =>
      have := he k
      simp only [look, if_true] at this
      by_cases e : k' = k
      · simp [e] at this; rw [e, this]
      · simp [e] at this
    | node n p l r => exact (leaf_node_ne hw' he).elim
  | node n p l r ihl ihr =>
    intro t' d P hw hw' he
    cases t' with
    | leaf k v => exact (leaf_node_ne hw fun q => (he q).symm).elim
    | node n' p' l' r' =>
      have en : n = n' := Nat.le_antisymm (prefix_le hw' fun q => (he q).symm) (prefix_le hw he)
      subst en
      have ep : p = p' := by
        funext i
        by_cases hi : i < n
        · obtain ⟨a, _, va, _, ha, _, pa, _⟩ := two_keys hw
          rw [he a] at ha
          rw [pa.2 i hi, (node_has ha).2 i hi]
        · rw [hw.2.1 i (by omega), hw'.2.1 i (by omega)]
      subst ep
      have el : l = l' := by
        refine ihl l' _ _ hw.2.2.1 hw'.2.2.1 fun q => ?_
        by_cases hu : under q (ext P d p n false) (d + n + 1)
        · rw [← look_left hw hu, ← look_left hw' hu]; exact he q
        · have a1 : look (d + n + 1) l q = none := by
            cases hx : look (d + n + 1) l q with
            | none => rfl
            | some v => exact (hu (found_under l _ _ q hw.2.2.1 (by rw [hx]; simp)).1).elim
          have a2 : look (d + n + 1) l' q = none := by
            cases hx : look (d + n + 1) l' q with
            | none => rfl
            | some v => exact (hu (found_under l' _ _ q hw'.2.2.1 (by rw [hx]; simp)).1).elim
          rw [a1, a2]
      have er : r = r' := by
        refine ihr r' _ _ hw.2.2.2 hw'.2.2.2 fun q => ?_
        by_cases hu : under q (ext P d p n true) (d + n + 1)
        · rw [← look_right hw hu, ← look_right hw' hu]; exact he q
        · have a1 : look (d + n + 1) r q = none := by
            cases hx : look (d + n + 1) r q with
            | none => rfl
            | some v => exact (hu (found_under r _ _ q hw.2.2.2 (by rw [hx]; simp)).1).elim
          have a2 : look (d + n + 1) r' q = none := by
            cases hx : look (d + n + 1) r' q with
            | none => rfl
            | some v => exact (hu (found_under r' _ _ q hw'.2.2.2 (by rw [hx]; simp)).1).elim
          rw [a1, a2]
      rw [el, er]

/-- A database root: empty, or a tree at depth 0. -/
noncomputable def look? : Option (T V) → Bs → Option V
  | none, _ => none
  | some t, q => look 0 t q
def WF? (P : Bs) : Option (T V) → Prop
  | none => True
  | some t => WF 0 P t

structure Hash (V H : Type) where
  zero : H
  val : V → H
  leaf : Bs → H → H
  int : Nat → Bs → H → H → H

def mk (h : Hash V H) : T V → H
  | .leaf k v => h.leaf k (h.val v)
  | .node n p l r => h.int n p (mk h l) (mk h r)
def mk? (h : Hash V H) : Option (T V) → H
  | none => h.zero
  | some t => mk h t

/-- C02: the root depends on the mapping only. -/
theorem root_canonical (h : Hash V H) (P : Bs) (a b : Option (T V)) (wa : WF? P a) (wb : WF? P b)
    (he : ∀ q, look? a q = look? b q) : mk? h a = mk? h b := by
  cases a with
  | none =>
    cases b with
    | none => rfl
    | some t =>
      obtain ⟨q, v, hq⟩ := inhabited t 0 P wb
      have := he q; simp [look?, hq] at this
  | some t =>
    cases b with
    | none =>
      obtain ⟨q, v, hq⟩ := inhabited t 0 P wa
      have := he q; simp [look?, hq] at this
    | some t' => rw [canonical t t' 0 P wa wb he]

/-- Collision freedom of the hash construction, as far as proofs rely on it. -/
structure Free (h : Hash V H) : Prop where
  val_inj : ∀ a b, h.val a = h.val b → a = b
  leaf_inj : ∀ k k' x x', h.leaf k x = h.leaf k' x' → k = k' ∧ x = x'
  int_inj : ∀ n n' p p' l l' r r', h.int n p l r = h.int n' p' l' r' → n = n' ∧ p = p' ∧ l = l' ∧ r = r'
  leaf_int : ∀ k x n p l r, h.leaf k x ≠ h.int n p l r
  zero_leaf : ∀ k x, h.zero ≠ h.leaf k x
  zero_int : ∀ n p l r, h.zero ≠ h.int n p l r

inductive Term (V H : Type) where
  | deadend | short (n : Nat) (p : Bs) (l r : H) | collision (k : Bs) (x : H) | exist (v : V)

/-- the value a terminal starts the fold with; none when verification refuses it -/
noncomputable def start (h : Hash V H) (q : Bs) (d : Nat) : Term V H → Option H
  | .deadend => some h.zero
  | .short n p l r => if has p n q d then none else some (h.int n p l r)
  | .collision k x => if k = q then none else some (h.leaf k x)
  | .exist v => some (h.leaf q (h.val v))

/-- what verification accepts (contract of proof_verify): top to bottom -/
inductive Accept (h : Hash V H) (q : Bs) (t : Term V H) : Nat → List (Nat × Bs × H) → H → Prop
  | stop (d : Nat) (x : H) : start h q d t = some x → Accept h q t d [] x
  | step (d n : Nat) (p : Bs) (s : H) (rest : List (Nat × Bs × H)) (x : H) :
      has p n q d → Accept h q t (d + n + 1) rest x →
      Accept h q t d ((n, p, s) :: rest) (if q (d + n) = true then h.int n p s x else h.int n p x s)

noncomputable def claim : Term V H → Option V
  | .exist v => some v
  | _ => none

theorem sound_tree {h : Hash V H} (hf : Free h) (q : Bs) (tm : Term V H) :
    ∀ d ns x, Accept h q tm d ns x → ∀ t : T V, mk h t = x → look d t q = claim tm := by
  intro d ns x ha
  induction ha with
  | stop d x hs =>
    intro t hm
    cases tm with
    | deadend =>
      simp only [start, Option.some.injEq] at hs; subst hs
      cases t with
      | leaf k v => exact (hf.zero_leaf _ _ hm.symm).elim
      | node n p l r => exact (hf.zero_int _ _ _ _ hm.symm).elim
    | short n p l r =>
      simp only [start] at hs
      by_cases hh : has p n q d
      · simp [hh] at hs
      · simp only [hh, if_false, Option.some.injEq] at hs; subst hs
        cases t with
        | leaf k v => exact (hf.leaf_int _ _ _ _ _ _ hm).elim
        | node n' p' l' r' =>
          obtain ⟨e1, e2, _, _⟩ := hf.int_inj _ _ _ _ _ _ _ _ hm
          subst e1; subst e2
          simp [look, hh, claim]
    | collision k y =>
      simp only [start] at hs
      by_cases e : k = q
      · simp [e] at hs
      · simp only [e, if_false, Option.some.injEq] at hs; subst hs
        cases t with
        | leaf k' v =>
          obtain ⟨e1, _⟩ := hf.leaf_inj _ _ _ _ hm
          subst e1; simp [look, e, claim]
        | node n p l r => exact (hf.leaf_int _ _ _ _ _ _ hm.symm).elim
    | exist v =>
      simp only [start, Option.some.injEq] at hs; subst hs
      cases t with
      | leaf k' v' =>
        obtain ⟨e1, e2⟩ := hf.leaf_inj _ _ _ _ hm
        have := hf.val_inj _ _ e2
        subst e1; subst this; simp [look, claim]
      | node n p l r => exact (hf.leaf_int _ _ _ _ _ _ hm.symm).elim
  | step d n p s rest x hh _ ih =>
    intro t hm
    cases t with
    | leaf k v =>
      by_cases hb : q (d + n) = true
      · simp only [hb, if_true] at hm; exact (hf.leaf_int _ _ _ _ _ _ hm).elim
      · simp only [hb] at hm; exact (hf.leaf_int _ _ _ _ _ _ hm).elim
    | node n' p' l r =>
      by_cases hb : q (d + n) = true
      · simp only [hb, if_true] at hm
        obtain ⟨e1, e2, _, e4⟩ := hf.int_inj _ _ _ _ _ _ _ _ hm
        subst e1; subst e2
        simp only [look, hh, hb, if_true]; exact ih r e4
      · simp only [hb] at hm
        obtain ⟨e1, e2, e3, _⟩ := hf.int_inj _ _ _ _ _ _ _ _ hm
        subst e1; subst e2
        simp only [look, hh, hb, if_true]; exact ih l e3

/-- C05: an accepted proof tells the truth about the tree with that root. -/
theorem proof_sound {h : Hash V H} (hf : Free h) (q : Bs) (tm : Term V H) (ns : List (Nat × Bs × H)) (t : Option (T V))
    (ha : Accept h q tm 0 ns (mk? h t)) : look? t q = claim tm := by
  cases t with
  | some t => exact sound_tree hf q tm 0 ns _ ha t rfl
  | none =>
    simp only [mk?] at ha
    generalize hz : h.zero = z at ha
    cases ha with
    | stop d x hs =>
      cases tm with
      | exist v => simp only [start, Option.some.injEq] at hs; rw [← hz] at hs; exact (hf.zero_leaf _ _ hs.symm).elim
      | deadend => rfl
      | short => rfl
      | collision => rfl
    | step d n p s rest x hh hr =>
      by_cases hb : q (0 + n) = true
      · simp only [hb, if_true] at hz; exact (hf.zero_int _ _ _ _ hz).elim
      · simp only [hb] at hz; exact (hf.zero_int _ _ _ _ hz).elim

/-- the proof the prove step contract describes, and its claim -/
inductive Prf (h : Hash V H) (q : Bs) : Nat → T V → List (Nat × Bs × H) → Term V H → Prop
  | hit (d : Nat) (v : V) : Prf h q d (.leaf q v) [] (.exist v)
  | miss (d : Nat) (k : Bs) (v : V) : k ≠ q → Prf h q d (.leaf k v) [] (.collision k (h.val v))
  | off (d n : Nat) (p : Bs) (l r : T V) : ¬ has p n q d → Prf h q d (.node n p l r) [] (.short n p (mk h l) (mk h r))
  | right (d n : Nat) (p : Bs) (l r : T V) (ns : List (Nat × Bs × H)) (tm : Term V H) : has p n q d → q (d + n) = true →
      Prf h q (d + n + 1) r ns tm → Prf h q d (.node n p l r) ((n, p, mk h l) :: ns) tm
  | left (d n : Nat) (p : Bs) (l r : T V) (ns : List (Nat × Bs × H)) (tm : Term V H) : has p n q d → q (d + n) ≠ true →
      Prf h q (d + n + 1) l ns tm → Prf h q d (.node n p l r) ((n, p, mk h r) :: ns) tm

/-- C04: an honest proof is accepted and claims what the tree says. -/
theorem proof_complete (h : Hash V H) (q : Bs) : ∀ d (t : T V) ns tm, Prf h q d t ns tm →
    Accept h q tm d ns (mk h t) ∧ claim tm = look d t q := by
  intro d t ns tm hp
  induction hp with
  | hit d v => exact ⟨.stop _ _ (by simp [start, mk]), by simp [claim, look]⟩
  | miss d k v hk => exact ⟨.stop _ _ (by simp [start, hk, mk]), by simp [claim, look, hk]⟩
  | off d n p l r hh => exact ⟨.stop _ _ (by simp [start, hh, mk]), by simp [claim, look, hh]⟩
  | right d n p l r ns tm hh hb _ ih =>
    refine ⟨?_, by simp [look, hh, hb, ih.2]⟩
    have := Accept.step (h := h) (q := q) (t := tm) d n p (mk h l) ns _ hh ih.1
    simp only [hb, if_true] at this; exact this
  | left d n p l r ns tm hh hb _ ih =>
    refine ⟨?_, by simp [look, hh, hb, ih.2]⟩
    have := Accept.step (h := h) (q := q) (t := tm) d n p (mk h r) ns _ hh ih.1
    simp only [hb] at this; exact this

/-- every tree and key has such a proof -/
theorem proof_exists (h : Hash V H) (q : Bs) (t : T V) : ∀ d, ∃ ns tm, Prf h q d t ns tm := by
  induction t with
  | leaf k v =>
    intro d
    by_cases e : k = q
    · subst e; exact ⟨_, _, .hit d v⟩
    · exact ⟨_, _, .miss d k v e⟩
  | node n p l r ihl ihr =>
    intro d
    by_cases hh : has p n q d
    · by_cases hb : q (d + n) = true
      · obtain ⟨ns, tm, h1⟩ := ihr (d + n + 1); exact ⟨_, _, .right d n p l r ns tm hh hb h1⟩
      · obtain ⟨ns, tm, h1⟩ := ihl (d + n + 1); exact ⟨_, _, .left d n p l r ns tm hh hb h1⟩
    · exact ⟨_, _, .off d n p l r hh⟩
