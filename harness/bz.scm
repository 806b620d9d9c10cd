; first-brillouin-zone: an equivalent wavevector in the first Brillouin zone
(define geometry-lattice '())
(define (object-property-value o p) (cdr (assq p o)))
(define (lat n)
  (let ((h (/ (sqrt 3) 2)))
    (case n
      ((0) (list (vector 1 0 0) (vector 0 1 0) (vector 0 0 1)))
      ((1) (list (vector h 1/2 0) (vector h -1/2 0) (vector 0 0 1)))             ; triangular
      ((2) (list (vector 0 1/2 1/2) (vector 1/2 0 1/2) (vector 1/2 1/2 0)))      ; fcc
      ((3) (list (vector -1/2 1/2 1/2) (vector 1/2 -1/2 1/2) (vector 1/2 1/2 -1/2))) ; bcc
      ((4) (list (vector 1 0 0) (vector 0 5/2 0) (vector 0 0 2/3)))              ; orthorhombic
      ((5) (list (vector 1 0 0) (vector 3/10 1 0) (vector 0 0 1)))               ; oblique
      ((6) (list (vector 1 0 0) (vector 2/5 11/10 0) (vector -1/5 3/10 6/5)))    ; triclinic
      ((7) (list (vector 1 0 0) (vector 1/2 h 0) (vector 0 0 8/5)))              ; hexagonal, 60 degrees
      (else (list (vector 1 0 0) (vector -2/5 1 0) (vector 0 1/3 3/2))))))
(define B '())  ; cartesian components of the three reciprocal basis vectors
(define (cart k) (vector3+ (vector3-scale (vector-ref k 0) (vector-ref B 0)) (vector3+ (vector3-scale (vector-ref k 1) (vector-ref B 1)) (vector3-scale (vector-ref k 2) (vector-ref B 2)))))
(define (norm2 c) (+ (* (vector-ref c 0) (vector-ref c 0)) (* (vector-ref c 1) (vector-ref c 1)) (* (vector-ref c 2) (vector-ref c 2))))
(define (reciprocal a b c) (vector3-scale (/ 1 (vector3-dot a (vector3-cross b c))) (vector3-cross b c)))
(define (main n dim K R)
  (set! geometry-lattice (list (cons 'basis (apply matrix3x3 (lat n))) (cons 'basis-size (vector 1 1 1)) (cons 'size (vector 1 1 1))))
  (let ((l (lat n))) (set! B (vector (reciprocal (car l) (cadr l) (caddr l)) (reciprocal (cadr l) (caddr l) (car l)) (reciprocal (caddr l) (car l) (cadr l)))))
  (let* ((x (sym-real "x")) (y (if (> dim 1) (sym-real "y") 0)) (z (if (> dim 2) (sym-real "z") (if (= dim 1) 1/3 0)))
	 (k (vector x y z)))
    (vector-map (lambda (c) (assume (<= c K)) (assume (>= c (- K)))) k)
    (let* ((r (first-brillouin-zone k)) (rc (cart r)))
      (vector-map (lambda (c) (check "the result differs from the given wavevector by a reciprocal lattice vector" (integral? c))) (vector3- r k))
      (check<= "the result is not longer than the given wavevector" (norm2 rc) (norm2 (cart k)))
      (do ((a 0 (+ a 1))) ((> a R))
	(do ((b (if (= a 0) 0 (- R)) (+ b 1))) ((> b R))
	  (do ((c (if (and (= a 0) (= b 0)) 1 (- R)) (+ c 1))) ((> c R))
	    ; both |r+G| and |r-G| are at least |r|:  |G|^2 >= 2|r.G|
	    (let* ((g (cart (vector a b c))) (gg (norm2 g)) (rg (* 2 (+ (* (vector-ref rc 0) (vector-ref g 0)) (* (vector-ref rc 1) (vector-ref g 1)) (* (vector-ref rc 2) (vector-ref g 2))))))
	      (check "no equivalent wavevector is closer to the origin" (and* (<= rg gg) (<= (- gg) rg))))))))))
