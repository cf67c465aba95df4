/-
Streaming composition. `absorb f n s l` folds every complete n-byte block of l into the
state s and returns what is left over: exactly the abstract effect the contract of
t1ha2_update states for  (buffered ++ data)  (n = 32, f = one t1ha2 block step).
The theorems turn that per-call contract into the history-level property: any way of
splitting a message over update calls ends in the same (state, buffered, total).
-/
variable {σ α : Type}

def absorb (f : σ → List α → σ) (n : Nat) (hn : 0 < n) (s : σ) (l : List α) : σ × List α :=
  if h : n ≤ l.length then absorb f n hn (f s (l.take n)) (l.drop n) else (s, l)
termination_by l.length
decreasing_by simp [List.length_drop]; omega

theorem absorb_append (f : σ → List α → σ) (n : Nat) (hn : 0 < n) (s : σ) (x y : List α) :
    absorb f n hn s (x ++ y) = absorb f n hn (absorb f n hn s x).1 ((absorb f n hn s x).2 ++ y) := by
  induction hk : x.length using Nat.strongRecOn generalizing s x with
  | ind k ih =>
    by_cases h : n ≤ x.length
    · have h' : n ≤ (x ++ y).length := by simp; omega
      have e1 : absorb f n hn s x = absorb f n hn (f s (x.take n)) (x.drop n) := by
        rw [absorb]; simp [h]
      have e2 : absorb f n hn s (x ++ y) = absorb f n hn (f s (x.take n)) (x.drop n ++ y) := by
        rw [absorb]
        simp only [h', dite_true]
        rw [List.take_append_of_le_length h, List.drop_append_of_le_length h]
      rw [e2, e1]
      exact ih (x.drop n).length (by simp [List.length_drop]; omega) _ _ rfl
    · have e1 : absorb f n hn s x = (s, x) := by rw [absorb]; simp [h]
      rw [e1]

theorem absorb_rest_lt (f : σ → List α → σ) (n : Nat) (hn : 0 < n) (s : σ) (l : List α) :
    (absorb f n hn s l).2.length < n := by
  induction hk : l.length using Nat.strongRecOn generalizing s l with
  | ind k ih =>
    by_cases h : n ≤ l.length
    · rw [absorb]; simp only [h, dite_true]
      exact ih (l.drop n).length (by simp [List.length_drop]; omega) _ _ rfl
    · rw [absorb]; simp only [h, dite_false]; omega

/-- what t1ha2_update does to (state, buffered, total), by its contract -/
def update (f : σ → List α → σ) (n : Nat) (hn : 0 < n) (c : (σ × List α) × Nat) (d : List α) :
    (σ × List α) × Nat :=
  (absorb f n hn c.1.1 (c.1.2 ++ d), c.2 + d.length)

theorem update_update (f : σ → List α → σ) (n : Nat) (hn : 0 < n) (c : (σ × List α) × Nat) (x y : List α) :
    update f n hn (update f n hn c x) y = update f n hn c (x ++ y) := by
  simp only [update]
  rw [← absorb_append]
  simp [List.append_assoc, Nat.add_assoc]

/-- any split of a message over update calls, empty pieces included, ends in one and the same context -/
theorem split_invariance (f : σ → List α → σ) (n : Nat) (hn : 0 < n) (s : σ) (ps : List (List α)) :
    ps.foldl (update f n hn) ((s, []), 0) = update f n hn ((s, []), 0) ps.flatten := by
  have gen : ∀ (c : (σ × List α) × Nat), c.1.2.length < n →
      ps.foldl (update f n hn) c = update f n hn c ps.flatten := by
    induction ps with
    | nil =>
      intro c hc
      have : ¬ n ≤ (c.1.2 ++ ([] : List α)).length := by simp; omega
      simp only [List.foldl, List.flatten, update]
      rw [absorb]; simp only [this, dite_false]; simp
    | cons p ps ih =>
      intro c hc
      have := ih (update f n hn c p) (absorb_rest_lt f n hn c.1.1 (c.1.2 ++ p))
      rw [List.foldl, this, update_update]; rfl
  exact gen _ (by simpa using hn)

#print axioms split_invariance
