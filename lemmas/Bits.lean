-- Prefix algebra behind the facts assumed in harness/stub_bits.h and
-- harness/ghost.h. A bit string is a function from indices to bits; a key is
-- one of 256 bits (indices past 255 are never looked at).

abbrev Bs := Nat → Bool

/-- the n bits of v equal key[d..d+n), all within the 256 bits of a key -/
def has (v : Bs) (n : Nat) (k : Bs) (d : Nat) : Prop := d + n ≤ 256 ∧ ∀ i, i < n → v i = k (d + i)
def slice (v : Bs) (s e : Nat) : Bs := fun i => if i < e - s then v (s + i) else false
def join (l : Bs) (ls : Nat) (r : Bs) (rs : Nat) (b : Bool) : Bs :=
  fun i => if i < ls then l i else if i = ls then b else if i < ls + 1 + rs then r (i - (ls + 1)) else false
/-- path P (d bits), then n bits of v, then bit b -/
def ext (P : Bs) (d : Nat) (v : Bs) (n : Nat) (b : Bool) : Bs :=
  fun i => if i < d then P i else if i < d + n then v (i - d) else if i = d + n then b else false
def under (k P : Bs) (d : Nat) : Prop := ∀ i, i < d → k i = P i
def tz (v : Bs) (n : Nat) : Prop := ∀ i, n ≤ i → v i = false
/-- c is the number of common bits of v[0..n) and k[d..256) -/
def isCount (c : Nat) (v : Bs) (n : Nat) (k : Bs) (d : Nat) : Prop :=
  c ≤ n ∧ d + c ≤ 256 ∧ (∀ i, i < c → v i = k (d + i)) ∧ (c < n → d + c < 256 → v c ≠ k (d + c))

theorem slice_in {v : Bs} {s e i : Nat} (h : i < e - s) : slice v s e i = v (s + i) := by
  unfold slice; rw [if_pos h]
theorem slice_pre {v : Bs} {e i : Nat} (h : i < e) : slice v 0 e i = v i := by
  rw [slice_in (by omega)]; congr 1; omega

theorem count_full {c n d : Nat} {v k : Bs} (h : isCount c v n k d) : c = n ↔ has v n k d := by
  obtain ⟨h1, h2, h3, h4⟩ := h
  constructor
  · intro e; subst e; exact ⟨h2, h3⟩
  · intro ⟨hb, ha⟩
    refine Nat.le_antisymm h1 (Nat.le_of_not_lt fun lt => ?_)
    exact h4 lt (by omega) (ha c lt)

theorem count_slice {c n d : Nat} {v k : Bs} (h : isCount c v n k d) : has (slice v 0 c) c k d := by
  obtain ⟨_, h2, h3, _⟩ := h
  refine ⟨h2, fun i hi => ?_⟩
  rw [slice_pre hi]; exact h3 i hi

theorem count_stop {c n d : Nat} {v k : Bs} (h : isCount c v n k d) (h1 : c < n) (h2 : c < 256 - d) :
    v c ≠ k (d + c) := h.2.2.2 h1 (by omega)

theorem slice_tz (v : Bs) (s e : Nat) : tz (slice v s e) (e - s) := by
  intro i hi
  have : ¬ i < e - s := by omega
  simp [slice, this]

theorem has_split {v k : Bs} {n i d : Nat} (hi : i < n) :
    has v n k d ↔ has (slice v 0 i) i k d ∧ k (d + i) = v i ∧ has (slice v (i + 1) n) (n - i - 1) k (d + i + 1) := by
  constructor
  · intro ⟨hb, ha⟩
    refine ⟨⟨by omega, fun j hj => ?_⟩, (ha i hi).symm, ⟨by omega, fun j hj => ?_⟩⟩
    · rw [slice_pre hj]; exact ha j (by omega)
    · have : j < n - (i + 1) := by omega
      simp [slice, this]
      have := ha (i + 1 + j) (by omega)
      rw [this]; congr 1; omega
  · intro ⟨⟨_, ha⟩, hm, ⟨hb, hc⟩⟩
    refine ⟨by omega, fun j hj => ?_⟩
    by_cases h1 : j < i
    · have := ha j h1
      rw [slice_pre h1] at this; exact this
    · by_cases h2 : j = i
      · subst h2; exact hm.symm
      · have h3 := hc (j - (i + 1)) (by omega)
        have h4 : j - (i + 1) < n - (i + 1) := by omega
        simp [slice, h4] at h3
        have e1 : i + 1 + (j - (i + 1)) = j := by omega
        have e2 : d + i + 1 + (j - (i + 1)) = d + j := by omega
        rw [e1, e2] at h3; exact h3

theorem ext_split {P v : Bs} {d n i : Nat} (hi : i < n) (x : Bool) :
    ext (ext P d (slice v 0 i) i (v i)) (d + i + 1) (slice v (i + 1) n) (n - i - 1) x = ext P d v n x := by
  funext j
  unfold ext slice
  by_cases h1 : j < d
  · have : j < d + i + 1 := by omega
    simp [h1, this]
  · by_cases h2 : j < d + i
    · have a1 : j < d + i + 1 := by omega
      have a2 : j < d + n := by omega
      have a3 : j - d < i := by omega
      simp [h1, h2, a1, a2, a3]
    · by_cases h3 : j = d + i
      · subst h3
        have a2 : d + i < d + n := by omega
        simp [a2, hi]
      · have a1 : ¬ j < d + i + 1 := by omega
        by_cases h4 : j < d + n
        · have a2 : j < d + i + 1 + (n - i - 1) := by omega
          have a3 : j - (d + i + 1) < n - (i + 1) := by omega
          have e : i + 1 + (j - (d + i + 1)) = j - d := by omega
          simp [h1, a1, h4, a2, a3, e]
        · have a2 : ¬ j < d + i + 1 + (n - i - 1) := by omega
          have e : (j = d + i + 1 + (n - i - 1)) ↔ (j = d + n) := by omega
          simp [h1, a1, h4, a2, e]

theorem join_tz {l r : Bs} {ls rs : Nat} {b : Bool} : tz (join l ls r rs b) (ls + rs + 1) := by
  intro i hi
  have a1 : ¬ i < ls := by omega
  have a2 : i ≠ ls := by omega
  have a3 : ¬ i < ls + 1 + rs := by omega
  simp [join, a1, a2, a3]

theorem has_join {l r k : Bs} {ls rs d : Nat} {b : Bool} :
    has (join l ls r rs b) (ls + rs + 1) k d ↔
      has l ls k d ∧ k (d + ls) = b ∧ has r rs k (d + ls + 1) := by
  constructor
  · intro ⟨hb, ha⟩
    refine ⟨⟨by omega, fun j hj => ?_⟩, ?_, ⟨by omega, fun j hj => ?_⟩⟩
    · have := ha j (by omega); simp [join, hj] at this; exact this
    · have := ha ls (by omega); simp [join] at this; exact this.symm
    · have h := ha (ls + 1 + j) (by omega)
      have a1 : ¬ ls + 1 + j < ls := by omega
      have a2 : ls + 1 + j ≠ ls := by omega
      have a3 : ls + 1 + j < ls + 1 + rs := by omega
      have e : ls + 1 + j - (ls + 1) = j := by omega
      simp only [join, a1, a2, a3, e, if_true, if_false] at h
      rw [h]; congr 1; omega
  · intro ⟨⟨_, ha⟩, hm, ⟨hb, hc⟩⟩
    refine ⟨by omega, fun j hj => ?_⟩
    by_cases h1 : j < ls
    · simp [join, h1]; exact ha j h1
    · by_cases h2 : j = ls
      · subst h2; simp [join]; exact hm.symm
      · have a3 : j < ls + 1 + rs := by omega
        simp [join, h1, h2, a3]
        have := hc (j - (ls + 1)) (by omega)
        rw [this]; congr 1; omega

theorem ext_join {P l r : Bs} {d ls rs : Nat} {b : Bool} (x : Bool) :
    ext (ext P d l ls b) (d + ls + 1) r rs x = ext P d (join l ls r rs b) (ls + rs + 1) x := by
  funext j
  unfold ext join
  by_cases h1 : j < d
  · have : j < d + ls + 1 := by omega
    simp [h1, this]
  · by_cases h2 : j < d + ls
    · have a1 : j < d + ls + 1 := by omega
      have a2 : j < d + (ls + rs + 1) := by omega
      have a3 : j - d < ls := by omega
      simp [h1, h2, a1, a2, a3]
    · by_cases h3 : j = d + ls
      · subst h3
        have a2 : d + ls < d + (ls + rs + 1) := by omega
        simp [a2]
      · have a1 : ¬ j < d + ls + 1 := by omega
        have a4 : ¬ j - d < ls := by omega
        have a5 : ¬ j - d = ls := by omega
        by_cases h4 : j < d + ls + 1 + rs
        · have a2 : j < d + (ls + rs + 1) := by omega
          have a3 : j - d < ls + 1 + rs := by omega
          have e : j - (d + ls + 1) = j - d - (ls + 1) := by omega
          simp [h1, a1, h4, a2, a3, a4, a5, e]
        · have a2 : ¬ j < d + (ls + rs + 1) := by omega
          have e : (j = d + ls + 1 + rs) ↔ (j = d + (ls + rs + 1)) := by omega
          simp [h1, a1, h4, a2, e]

theorem under_full {k q P : Bs} (hk : under k P 256) : under q P 256 ↔ ∀ i, i < 256 → k i = q i := by
  constructor
  · intro hq i hi; rw [hk i hi, hq i hi]
  · intro h i hi; rw [← h i hi, hk i hi]

theorem under_ext {k P v : Bs} {d n : Nat} {b : Bool} (hd : d + n ≤ 256) :
    under k (ext P d v n b) (d + n + 1) ↔ under k P d ∧ has v n k d ∧ k (d + n) = b := by
  constructor
  · intro h
    refine ⟨fun i hi => ?_, ⟨hd, fun i hi => ?_⟩, ?_⟩
    · have := h i (by omega); simp [ext, hi] at this; exact this
    · have h1 := h (d + i) (by omega)
      have a1 : d + i < d + n := by omega
      have a0 : ¬ d + i < d := by omega
      have a2 : d + i - d = i := by omega
      simp only [ext, a0, a1, a2, if_true, if_false] at h1; exact h1.symm
    · have := h (d + n) (by omega)
      have a0 : ¬ d + n < d := by omega
      have a1 : ¬ d + n < d + n := by omega
      simp only [ext, a0, a1, if_true, if_false] at this; exact this
  · intro ⟨h1, ⟨_, h2⟩, h3⟩ i hi
    by_cases a : i < d
    · simp [ext, a]; exact h1 i a
    · by_cases b' : i < d + n
      · have := h2 (i - d) (by omega)
        simp [ext, a, b', this]; congr 1; omega
      · have e : i = d + n := by omega
        subst e; simp only [ext, a, b', h3, if_true, if_false]

/-- collide: a count between two keys, taken as a prefix at depth d -/
theorem collide_has {c d : Nat} {v k : Bs} (h1 : d + c ≤ 256) (h2 : ∀ i, i < c → v (d + i) = k (d + i)) :
    has (slice v d (d + c)) c k d ∧ has (slice v d (d + c)) c v d := by
  refine ⟨⟨h1, fun i hi => ?_⟩, ⟨h1, fun i hi => ?_⟩⟩ <;>
  · have : i < d + c - d := by omega
    simp [slice, hi]
    try exact h2 i hi

theorem collide_stop {d : Nat} {v k P : Bs} (hv : under v P d) (hk : under k P d)
    (h : ∀ i, i < 256 - d → v (d + i) = k (d + i)) : ∀ i, i < 256 → v i = k i := by
  intro i hi
  by_cases a : i < d
  · rw [hv i a, hk i a]
  · have := h (i - d) (by omega)
    have e : d + (i - d) = i := by omega
    rw [e] at this; exact this

/-- an inner position of a non-empty subtree with two different keys is above the last bit -/
theorem inner_depth {k q P : Bs} {d : Nat} (hk : under k P d) (hq : under q P d)
    (i : Nat) (hi : i < 256) (hne : k i ≠ q i) : d < 256 := by
  refine Nat.lt_of_not_le fun h => hne ?_
  rw [hk i (by omega), hq i (by omega)]
