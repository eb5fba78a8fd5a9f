(set-logic ALL)
; m*m > v exactly when m > r, where r*r <= v < (r+1)*(r+1); and no square of 0..2^31 exceeds 2^62
(declare-const m Int) (declare-const r Int) (declare-const v Int)
(assert (and (<= 0 m) (<= m 2147483648) (<= 0 r) (<= 0 v)))
(assert (and (<= (* r r) v) (< v (* (+ r 1) (+ r 1)))))
(assert (not (and (= (> (* m m) v) (> m r)) (<= (* m m) 4611686018427387904))))
(check-sat)
