// byte-string order: a total order
pub proof fn lemma_lexc_at(a: Seq<u8>, b: Seq<u8>, n: int, i: int)
  requires 0 <= n <= i, i <= a.len(), i <= b.len(), forall|j: int| n <= j < i ==> a[j] == b[j]
  ensures lexc(a, b, n) == lexc(a, b, i)
  decreases i - n
{ if n < i { lemma_lexc_at(a, b, n + 1, i); } }
pub proof fn lemma_lexc_eq(a: Seq<u8>, b: Seq<u8>, n: int)
  requires 0 <= n, n <= a.len(), n <= b.len(), forall|j: int| 0 <= j < n ==> a[j] == b[j]
  ensures (lexc(a, b, n) == Ordering::Equal) == (a =~= b)
  decreases a.len() - n
{ if n < a.len() && n < b.len() && a[n] == b[n] { lemma_lexc_eq(a, b, n + 1); } }
