; splitting the k-points over jobs
(define (main mode n maxnum)
  (let ((L (map (lambda (i) (vector (/ i 100) 0 0)) (upto 1 n))))
    (case mode
      ((0)   ; any chunk of any split: shape
       (let* ((num (sym-int "num" 1 maxnum)) (idx (sym-int "idx" -2 (+ maxnum 2))) (r (list-split L num idx)) (start (car r)) (c (cdr r)) (len (length c)))
	 (if (or (< idx 0) (>= idx num))
	     (begin (check "no k-points for an index outside the split" (= len 0)) (check= "first index past the end" start n) (reached "outside"))
	     (begin
	       (check "no chunk is longer than the others by more than the rounding" (< (* num (- len 1)) n))
	       (if (> len 0)
		   (begin
		     (check "the chunk lies inside the list" (and* (<= 0 start) (<= (+ start len) n)))
		     (check= "the chunk is the contiguous part of the list at its first index" c (list-head (list-tail L start) len))
		     (reached "chunk"))
		   (check "an empty chunk starts past the end" (>= start n)))
	       ; the next chunk begins where this one ends
	       (if (< (+ idx 1) num)
		   (let ((r2 (list-split L num (+ idx 1))))
		     (if (> (length (cdr r2)) 0) (check= "each chunk begins where the one before it ends" (car r2) (+ start len))
			 (check "only the end of the list is followed by an empty chunk" (>= (+ start len) n)))))
	       (if (= idx 0) (check= "the first chunk begins the list" start 0))
	       (if (= idx (- num 1)) (check "the last chunk ends the list" (>= (+ start len) n)))))))
      ((1)   ; all chunks together
       (let* ((num (pick-int "num" 1 maxnum)))
	 (check= "the chunks in order are the whole list" (apply append (map (lambda (i) (cdr (list-split L num i))) (upto 0 (- num 1)))) L)))
      ((2)   ; a run of one chunk
       (let* ((num (sym-int "num" 1 maxnum)) (idx (sym-int "idx" 0 maxnum)) (mu (sym-int "mu" 0 1)))
	 (assume (< idx num))
	 (set! %mu? (= mu 1))
	 (set! k-points L) (set! k-split-num num) (set! k-split-index idx)
	 (set! num-bands 2)
	 (set! freq-of (lambda (c b) (+ c (* b 10))))
	 (set! %kindex 77)
	 (let ((seen '()))
	   (run-parity 1 #t (lambda (b) (set! seen (cons (list current-k b (get-kpoint-index)) seen))) (lambda () (set! seen (cons (list current-k 'thunk (get-kpoint-index)) seen))))
	   (let* ((l (get-log)) (r (list-split L num idx)) (c (cdr r)) (len (length c)) (ev (log-filter '(solve) l)))
	     (check= "the run initializes once, for the requested parity" (log-filter '(init) l) (list (list 'init 1 #t)))
	     (check= "exactly the k-points of the chunk are solved, in order" (map cadr ev) c)
	     (check= "every k-point is solved for all bands" (map caddr ev) (map (lambda (k) 2) c))
	     (check= "frequencies are collected in the order of the chunk" all-freqs (map (lambda (i) (list (+ i 10) (+ i 20))) (upto 1 len)))
	     (if (> len 0)
		 (begin
		   (check= "k-points are numbered by their place in the whole list" (map caddr (reverse seen))
			   (apply append (map (lambda (k i) (let ((p (+ (car r) i))) (list p p p))) c (upto 1 len))))
		   (check= "band functions see every band of every k-point, functions without argument run once" (map (lambda (s) (list (car s) (cadr s))) (reverse seen))
			   (apply append (map (lambda (k) (list (list k 1) (list k 2) (list k 'thunk))) c)))))
	     (if (> n 0)
		 (check= "only the job of the first chunk writes epsilon (and mu when there is one)"
		   (map car (log-filter '(get-epsilon get-mu output) l))
		   (if (= idx 0) (if %mu? '(get-epsilon output get-mu output) '(get-epsilon output)) '()))))
	   (reached "run")))))))
