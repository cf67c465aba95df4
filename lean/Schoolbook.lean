/-
The schoolbook identity and the bound on 32-bit products that the verifier instantiates for
bodies that build a 64x64->128 product from 32-bit halves. Over Nat, so without wrap-around:
the 128-bit terms the instances are stated in hold every intermediate value exactly.
-/
theorem schoolbook (a b : Nat) :
    a * b = a % 2 ^ 32 * (b % 2 ^ 32)
          + (a / 2 ^ 32 * (b % 2 ^ 32) + a % 2 ^ 32 * (b / 2 ^ 32)) * 2 ^ 32
          + a / 2 ^ 32 * (b / 2 ^ 32) * 2 ^ 64 := by
  have ha := Nat.div_add_mod a (2 ^ 32)
  have hb := Nat.div_add_mod b (2 ^ 32)
  generalize a / 2 ^ 32 = ah at *
  generalize b / 2 ^ 32 = bh at *
  generalize a % 2 ^ 32 = al at *
  generalize b % 2 ^ 32 = bl at *
  subst ha hb
  have h : (2 : Nat) ^ 64 = 2 ^ 32 * 2 ^ 32 := by decide
  rw [h]
  generalize (2 : Nat) ^ 32 = k
  simp only [Nat.add_mul, Nat.mul_add]
  have e1 : k * ah * (k * bh) = ah * bh * (k * k) := by
    rw [Nat.mul_comm k ah, Nat.mul_assoc, Nat.mul_assoc, ← Nat.mul_assoc k k bh, Nat.mul_comm (k * k) bh]
  have e2 : k * ah * bl = ah * bl * k := by rw [Nat.mul_comm k ah, Nat.mul_assoc, Nat.mul_comm k bl, Nat.mul_assoc]
  have e3 : al * (k * bh) = al * bh * k := by rw [Nat.mul_comm k bh, Nat.mul_assoc]
  rw [e1, e2, e3]
  omega

theorem product_bound (x y : Nat) (hx : x < 2 ^ 32) (hy : y < 2 ^ 32) : x * y ≤ (2 ^ 32 - 1) * (2 ^ 32 - 1) :=
  Nat.mul_le_mul (by omega) (by omega)

/-- every term of the right-hand side, and its sum, is below 2^128 -/
theorem no_wrap (a b : Nat) (ha : a < 2 ^ 64) (hb : b < 2 ^ 64) : a * b < 2 ^ 128 := by
  have h : a * b ≤ (2 ^ 64 - 1) * (2 ^ 64 - 1) := Nat.mul_le_mul (by omega) (by omega)
  omega

#print axioms schoolbook
#print axioms product_bound
#print axioms no_wrap
