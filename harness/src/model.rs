//! Plain-Rust equivalents of standard-library loops whose real implementation
//! uses raw allocation.  The analyzer interprets these in place of the
//! originals (see analyzer/src/models.rs); they are never executed.
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::num::NonZero;
use std::ops::{Bound, ControlFlow, Range, RangeBounds, RangeFrom, RangeTo, Try};

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
	let mut it = it.into_iter();
	let mut v = Vec::new();
	while let Some(x) = it.next() {
		v.push(x);
	}
	v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
	let mut it = it.into_iter();
	while let Some(x) = it.next() {
		v.push(x);
	}
}
pub fn string_from_iter<I: IntoIterator<Item = char>>(it: I) -> String {
	let mut it = it.into_iter();
	let mut v = String::new();
	while let Some(x) = it.next() {
		v.push(x);
	}
	v
}
pub fn string_extend<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
	let mut it = it.into_iter();
	while let Some(x) = it.next() {
		v.push(x);
	}
}
pub fn fold<I: Iterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
	let mut acc = init;
	while let Some(x) = it.next() {
		acc = f(acc, x);
	}
	acc
}
pub fn rfold<I: DoubleEndedIterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
	let mut acc = init;
	while let Some(x) = it.next_back() {
		acc = f(acc, x);
	}
	acc
}

pub fn try_fold<I: Iterator, A, F: FnMut(A, I::Item) -> R, R: Try<Output = A>>(it: &mut I, init: A, mut f: F) -> R {
	let mut acc = init;
	while let Some(x) = it.next() {
		match f(acc, x).branch() {
			ControlFlow::Continue(c) => acc = c,
			ControlFlow::Break(r) => return R::from_residual(r),
		}
	}
	R::from_output(acc)
}
pub fn try_rfold<I: DoubleEndedIterator, A, F: FnMut(A, I::Item) -> R, R: Try<Output = A>>(it: &mut I, init: A, mut f: F) -> R {
	let mut acc = init;
	while let Some(x) = it.next_back() {
		match f(acc, x).branch() {
			ControlFlow::Continue(c) => acc = c,
			ControlFlow::Break(r) => return R::from_residual(r),
		}
	}
	R::from_output(acc)
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
	let mut l = None;
	while let Some(x) = it.next() {
		l = Some(x);
	}
	l
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
	for _ in 0..n {
		it.next()?;
	}
	it.next()
}
pub fn nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
	for _ in 0..n {
		it.next_back()?;
	}
	it.next_back()
}
pub fn advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), NonZero<usize>> {
	for k in 0..n {
		if it.next().is_none() {
			return Err(NonZero::new(n - k).unwrap());
		}
	}
	Ok(())
}
pub fn advance_back_by<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Result<(), NonZero<usize>> {
	for k in 0..n {
		if it.next_back().is_none() {
			return Err(NonZero::new(n - k).unwrap());
		}
	}
	Ok(())
}

// ---- vectors and slices -----------------------------------------------------
pub fn vec_extend_refs<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
	let mut it = it.into_iter();
	while let Some(x) = it.next() {
		v.push(*x);
	}
}
pub fn vec_extend_one<T>(v: &mut Vec<T>, x: T) {
	v.push(x);
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
	let old = std::mem::take(v);
	for x in old {
		if f(&x) {
			v.push(x);
		}
	}
}
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
	let old = std::mem::take(v);
	for mut x in old {
		if f(&mut x) {
			v.push(x);
		}
	}
}
pub fn vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
	let old = std::mem::take(v);
	for mut x in old {
		match v.last_mut() {
			Some(l) => {
				if !f(&mut x, l) {
					v.push(x);
				}
			}
			None => v.push(x),
		}
	}
}
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) {
	v.truncate(n);
	while v.len() < n {
		v.push(x.clone());
	}
}
pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
	v.truncate(n);
	while v.len() < n {
		v.push(f());
	}
}
fn bounds<R: RangeBounds<usize>>(r: &R, len: usize) -> (usize, usize) {
	let a = match r.start_bound() {
		Bound::Included(x) => *x,
		Bound::Excluded(x) => *x + 1,
		Bound::Unbounded => 0,
	};
	let b = match r.end_bound() {
		Bound::Included(x) => *x + 1,
		Bound::Excluded(x) => *x,
		Bound::Unbounded => len,
	};
	assert!(a <= b && b <= len, "range out of bounds");
	(a, b)
}
/// the drained elements, in place of a `Drain`
pub fn vec_drain<T, R: RangeBounds<usize>>(v: &mut Vec<T>, r: R) -> std::vec::IntoIter<T> {
	let (a, b) = bounds(&r, v.len());
	let mut out = Vec::new();
	for _ in a..b {
		out.push(v.remove(a));
	}
	out.into_iter()
}
pub fn vec_split_off<T>(v: &mut Vec<T>, at: usize) -> Vec<T> {
	assert!(at <= v.len(), "split_off out of bounds");
	let mut out = Vec::new();
	while v.len() > at {
		out.push(v.remove(at));
	}
	out
}
pub fn vec_pop_if<T, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
	let l = v.last_mut()?;
	if f(l) {
		v.pop()
	} else {
		None
	}
}
pub fn vec_extend_from_within<T: Clone, R: RangeBounds<usize>>(v: &mut Vec<T>, r: R) {
	let (a, b) = bounds(&r, v.len());
	for k in a..b {
		let x = v[k].clone();
		v.push(x);
	}
}
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
	let mut v = Vec::new();
	for _ in 0..n {
		v.push(x.clone());
	}
	v
}
pub fn slice_repeat<T: Copy>(s: &[T], n: usize) -> Vec<T> {
	let mut v = Vec::new();
	for _ in 0..n {
		for x in s {
			v.push(*x);
		}
	}
	v
}
pub fn slice_reverse<T>(v: &mut [T]) {
	let n = v.len();
	for k in 0..n / 2 {
		v.swap(k, n - 1 - k);
	}
}
pub fn slice_rotate_left<T>(v: &mut [T], k: usize) {
	assert!(k <= v.len(), "rotate_left out of bounds");
	for _ in 0..k {
		for j in 1..v.len() {
			v.swap(j - 1, j);
		}
	}
}
pub fn slice_rotate_right<T>(v: &mut [T], k: usize) {
	assert!(k <= v.len(), "rotate_right out of bounds");
	let n = v.len() - k;
	slice_rotate_left(v, n);
}
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> Ordering>(v: &mut [T], mut f: F) {
	for i in 1..v.len() {
		for j in (1..=i).rev() {
			if f(&v[j], &v[j - 1]) != Ordering::Less {
				break;
			}
			v.swap(j, j - 1);
		}
	}
}
pub fn slice_sort<T: Ord>(v: &mut [T]) {
	slice_sort_by(v, |a, b| a.cmp(b));
}
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
	slice_sort_by(v, |a, b| f(a).cmp(&f(b)));
}

// ---- text ---------------------------------------------------------------------
// `cv`, `leak` and `mk` are replaced by transfer functions of the analyzer
pub fn cv(s: &str) -> Vec<char> {
	s.chars().collect()
}
pub fn leak<'a>(v: Vec<char>) -> &'a str {
	let _ = v;
	unreachable!()
}
pub fn mk(v: Vec<char>) -> String {
	v.into_iter().collect()
}
fn char_at(v: &[char], byte: usize) -> usize {
	let mut p = 0;
	let mut i = 0;
	while p < byte {
		assert!(i < v.len(), "byte index out of bounds");
		p += v[i].len_utf8();
		i += 1;
	}
	assert!(p == byte, "byte index is not a char boundary");
	i
}
fn trim_by<'a>(s: &'a str, mut p: impl FnMut(char) -> bool, start: bool, end: bool) -> &'a str {
	let mut v = cv(s);
	if start {
		while let Some(c) = v.first() {
			if !p(*c) {
				break;
			}
			v.remove(0);
		}
	}
	if end {
		while let Some(c) = v.last() {
			if !p(*c) {
				break;
			}
			v.pop();
		}
	}
	leak(v)
}
pub fn str_trim(s: &str) -> &str {
	trim_by(s, char::is_whitespace, true, true)
}
pub fn str_trim_start(s: &str) -> &str {
	trim_by(s, char::is_whitespace, true, false)
}
pub fn str_trim_end(s: &str) -> &str {
	trim_by(s, char::is_whitespace, false, true)
}
fn ascii_ws(c: char) -> bool {
	c.is_ascii_whitespace()
}
pub fn str_trim_ascii(s: &str) -> &str {
	trim_by(s, ascii_ws, true, true)
}
pub fn str_trim_ascii_start(s: &str) -> &str {
	trim_by(s, ascii_ws, true, false)
}
pub fn str_trim_ascii_end(s: &str) -> &str {
	trim_by(s, ascii_ws, false, true)
}
fn starts(v: &[char], p: &[char]) -> bool {
	if v.len() < p.len() {
		return false;
	}
	for k in 0..p.len() {
		if v[k] != p[k] {
			return false;
		}
	}
	true
}
fn strip_start<'a>(s: &'a str, p: &[char]) -> Option<&'a str> {
	let mut v = cv(s);
	if !starts(&v, p) {
		return None;
	}
	for _ in 0..p.len() {
		v.remove(0);
	}
	Some(leak(v))
}
fn strip_end<'a>(s: &'a str, p: &[char]) -> Option<&'a str> {
	let mut v = cv(s);
	if v.len() < p.len() || !starts(&v[v.len() - p.len()..], p) {
		return None;
	}
	for _ in 0..p.len() {
		v.pop();
	}
	Some(leak(v))
}
fn split_by<'a>(s: &'a str, mut p: impl FnMut(char) -> bool, max: usize) -> Vec<&'a str> {
	let mut out = Vec::new();
	let mut cur = Vec::new();
	for c in cv(s) {
		if out.len() + 1 < max && p(c) {
			out.push(leak(std::mem::take(&mut cur)));
		} else {
			cur.push(c);
		}
	}
	out.push(leak(cur));
	out
}
pub fn str_split_whitespace(s: &str) -> std::vec::IntoIter<&str> {
	let mut out = split_by(s, char::is_whitespace, usize::MAX);
	vec_retain(&mut out, |x| !cv(x).is_empty());
	out.into_iter()
}
pub fn str_lines(s: &str) -> std::vec::IntoIter<&str> {
	let mut out = split_by(s, |c| c == '\n', usize::MAX);
	if let Some(l) = out.last() {
		if cv(l).is_empty() {
			out.pop();
		}
	}
	let mut res = Vec::new();
	for l in out {
		res.push(strip_end(l, &['\r']).unwrap_or(l));
	}
	res.into_iter()
}
fn find_by(s: &str, mut p: impl FnMut(char) -> bool) -> Option<usize> {
	let mut k = 0;
	for c in cv(s) {
		if p(c) {
			return Some(k);
		}
		k += c.len_utf8();
	}
	None
}
fn rfind_by(s: &str, mut p: impl FnMut(char) -> bool) -> Option<usize> {
	let mut k = 0;
	let mut r = None;
	for c in cv(s) {
		if p(c) {
			r = Some(k);
		}
		k += c.len_utf8();
	}
	r
}
fn replace_by(s: &str, mut p: impl FnMut(char) -> bool, to: &str, mut n: usize) -> String {
	let mut out = Vec::new();
	for c in cv(s) {
		if n > 0 && p(c) {
			out.append(&mut cv(to));
			n -= 1;
		} else {
			out.push(c);
		}
	}
	mk(out)
}
fn once_by<'a>(s: &'a str, mut p: impl FnMut(char) -> bool, back: bool) -> Option<(&'a str, &'a str)> {
	let mut a = cv(s);
	let mut b = Vec::new();
	if back {
		while let Some(c) = a.pop() {
			if p(c) {
				return Some((leak(a), leak(b)));
			}
			b.insert(0, c);
		}
	} else {
		while !a.is_empty() {
			let c = a.remove(0);
			if p(c) {
				return Some((leak(b), leak(a)));
			}
			b.push(c);
		}
	}
	None
}
macro_rules! pats {
	($($f:ident, $c:ident, $a:ident, $l:ident ($($x:ident: $t:ty),*) -> $r:ty, |$s:ident, $p:ident| $body:expr;)*) => {$(
		pub fn $f<'a, F: FnMut(char) -> bool>($s: &'a str, $($x: $t,)* #[allow(unused_mut)] mut $p: F) -> $r { $body }
		pub fn $c<'a>($s: &'a str, $($x: $t,)* c: char) -> $r { #[allow(unused_mut)] let mut $p = |x: char| x == c; $body }
		pub fn $a<'a, const N: usize>($s: &'a str, $($x: $t,)* c: [char; N]) -> $r { #[allow(unused_mut)] let mut $p = |x: char| has(&c, x); $body }
		pub fn $l<'a>($s: &'a str, $($x: $t,)* c: &[char]) -> $r { #[allow(unused_mut)] let mut $p = |x: char| has(c, x); $body }
	)*};
}
fn has(c: &[char], x: char) -> bool {
	for y in c {
		if *y == x {
			return true;
		}
	}
	false
}
pats! {
	str_trim_matches_f, str_trim_matches_c, str_trim_matches_a, str_trim_matches_l () -> &'a str, |s, p| trim_by(s, p, true, true);
	str_trim_start_matches_f, str_trim_start_matches_c, str_trim_start_matches_a, str_trim_start_matches_l () -> &'a str, |s, p| trim_by(s, p, true, false);
	str_trim_end_matches_f, str_trim_end_matches_c, str_trim_end_matches_a, str_trim_end_matches_l () -> &'a str, |s, p| trim_by(s, p, false, true);
	str_find_f, str_find_c, str_find_a, str_find_l () -> Option<usize>, |s, p| find_by(s, p);
	str_rfind_f, str_rfind_c, str_rfind_a, str_rfind_l () -> Option<usize>, |s, p| rfind_by(s, p);
	str_contains_f, str_contains_c, str_contains_a, str_contains_l () -> bool, |s, p| find_by(s, p).is_some();
	str_split_f, str_split_c, str_split_a, str_split_l () -> std::vec::IntoIter<&'a str>, |s, p| split_by(s, p, usize::MAX).into_iter();
	str_split_once_f, str_split_once_c, str_split_once_a, str_split_once_l () -> Option<(&'a str, &'a str)>, |s, p| once_by(s, p, false);
	str_rsplit_once_f, str_rsplit_once_c, str_rsplit_once_a, str_rsplit_once_l () -> Option<(&'a str, &'a str)>, |s, p| once_by(s, p, true);
	str_starts_with_f, str_starts_with_c, str_starts_with_a, str_starts_with_l () -> bool, |s, p| cv(s).first().is_some_and(|c| p(*c));
	str_ends_with_f, str_ends_with_c, str_ends_with_a, str_ends_with_l () -> bool, |s, p| cv(s).last().is_some_and(|c| p(*c));
	str_strip_prefix_f, str_strip_prefix_c, str_strip_prefix_a, str_strip_prefix_l () -> Option<&'a str>, |s, p| {
		let mut v = cv(s);
		if v.first().is_some_and(|c| p(*c)) { v.remove(0); Some(leak(v)) } else { None }
	};
	str_strip_suffix_f, str_strip_suffix_c, str_strip_suffix_a, str_strip_suffix_l () -> Option<&'a str>, |s, p| {
		let mut v = cv(s);
		if v.last().is_some_and(|c| p(*c)) { v.pop(); Some(leak(v)) } else { None }
	};
}
// `replace` takes the pattern before its other argument
pub fn str_replace_f<F: FnMut(char) -> bool>(s: &str, p: F, to: &str) -> String {
	replace_by(s, p, to, usize::MAX)
}
pub fn str_replace_c(s: &str, c: char, to: &str) -> String {
	replace_by(s, |x| x == c, to, usize::MAX)
}
pub fn str_replace_a<const N: usize>(s: &str, c: [char; N], to: &str) -> String {
	replace_by(s, |x| has(&c, x), to, usize::MAX)
}
pub fn str_replace_l(s: &str, c: &[char], to: &str) -> String {
	replace_by(s, |x| has(c, x), to, usize::MAX)
}
pub fn str_replace_s(s: &str, p: &str, to: &str) -> String {
	let (p, mut v) = (cv(p), cv(s));
	assert!(!p.is_empty(), "empty pattern is not modelled");
	let mut out = Vec::new();
	while !v.is_empty() {
		if starts(&v, &p) {
			for _ in 0..p.len() {
				v.remove(0);
			}
			out.append(&mut cv(to));
		} else {
			out.push(v.remove(0));
		}
	}
	mk(out)
}
pub fn str_trim_start_matches_s<'a>(s: &'a str, p: &str) -> &'a str {
	let p = cv(p);
	let mut s = s;
	if p.is_empty() {
		return s;
	}
	while let Some(r) = strip_start(s, &p) {
		s = r;
	}
	s
}
pub fn str_trim_end_matches_s<'a>(s: &'a str, p: &str) -> &'a str {
	let p = cv(p);
	let mut s = s;
	if p.is_empty() {
		return s;
	}
	while let Some(r) = strip_end(s, &p) {
		s = r;
	}
	s
}
pub fn str_find_s(s: &str, p: &str) -> Option<usize> {
	let (p, mut v) = (cv(p), cv(s));
	let mut k = 0;
	loop {
		if starts(&v, &p) {
			return Some(k);
		}
		if v.is_empty() {
			return None;
		}
		k += v.remove(0).len_utf8();
	}
}
pub fn str_contains_s(s: &str, p: &str) -> bool {
	str_find_s(s, p).is_some()
}
pub fn str_starts_with_s(s: &str, p: &str) -> bool {
	starts(&cv(s), &cv(p))
}
pub fn str_ends_with_s(s: &str, p: &str) -> bool {
	let (p, v) = (cv(p), cv(s));
	v.len() >= p.len() && starts(&v[v.len() - p.len()..], &p)
}
pub fn str_strip_prefix_s<'a>(s: &'a str, p: &str) -> Option<&'a str> {
	strip_start(s, &cv(p))
}
pub fn str_strip_suffix_s<'a>(s: &'a str, p: &str) -> Option<&'a str> {
	strip_end(s, &cv(p))
}
pub fn str_split_s<'a>(s: &'a str, p: &str) -> std::vec::IntoIter<&'a str> {
	let (p, mut v) = (cv(p), cv(s));
	assert!(!p.is_empty(), "empty pattern is not modelled");
	let mut out = Vec::new();
	let mut cur = Vec::new();
	while !v.is_empty() {
		if starts(&v, &p) {
			for _ in 0..p.len() {
				v.remove(0);
			}
			out.push(leak(std::mem::take(&mut cur)));
		} else {
			cur.push(v.remove(0));
		}
	}
	out.push(leak(cur));
	out.into_iter()
}
pub fn str_split_once_s<'a>(s: &'a str, p: &str) -> Option<(&'a str, &'a str)> {
	let (p, mut v) = (cv(p), cv(s));
	let mut a = Vec::new();
	loop {
		if starts(&v, &p) {
			for _ in 0..p.len() {
				v.remove(0);
			}
			return Some((leak(a), leak(v)));
		}
		if v.is_empty() {
			return None;
		}
		a.push(v.remove(0));
	}
}
pub fn str_char_indices(s: &str) -> std::vec::IntoIter<(usize, char)> {
	let mut out = Vec::new();
	let mut k = 0;
	for c in cv(s) {
		out.push((k, c));
		k += c.len_utf8();
	}
	out.into_iter()
}
/// laid out like `str::Bytes`
pub struct Octets<'a>(pub std::iter::Copied<std::slice::Iter<'a, u8>>);
pub fn str_bytes(s: &str) -> Octets<'_> {
	Octets(s.as_bytes().iter().copied())
}
pub fn str_repeat(s: &str, n: usize) -> String {
	let mut out = Vec::new();
	for _ in 0..n {
		out.append(&mut cv(s));
	}
	mk(out)
}
pub fn str_index_range(s: &str, r: Range<usize>) -> &str {
	let v = cv(s);
	let a = char_at(&v, r.start);
	let b = char_at(&v, r.end);
	assert!(a <= b, "range end before start");
	leak(v[a..b].to_vec())
}
pub fn str_index_from(s: &str, r: RangeFrom<usize>) -> &str {
	let v = cv(s);
	let a = char_at(&v, r.start);
	leak(v[a..].to_vec())
}
pub fn str_index_to(s: &str, r: RangeTo<usize>) -> &str {
	let v = cv(s);
	let b = char_at(&v, r.end);
	leak(v[..b].to_vec())
}
fn boundary(v: &[char], byte: usize) -> Option<usize> {
	let mut p = 0;
	let mut i = 0;
	while p < byte {
		if i >= v.len() {
			return None;
		}
		p += v[i].len_utf8();
		i += 1;
	}
	if p == byte {
		Some(i)
	} else {
		None
	}
}
pub fn str_get_range(s: &str, r: Range<usize>) -> Option<&str> {
	let v = cv(s);
	let a = boundary(&v, r.start)?;
	let b = boundary(&v, r.end)?;
	if a > b {
		return None;
	}
	Some(leak(v[a..b].to_vec()))
}
pub fn str_get_from(s: &str, r: RangeFrom<usize>) -> Option<&str> {
	let v = cv(s);
	let a = boundary(&v, r.start)?;
	Some(leak(v[a..].to_vec()))
}
pub fn str_get_to(s: &str, r: RangeTo<usize>) -> Option<&str> {
	let v = cv(s);
	let b = boundary(&v, r.end)?;
	Some(leak(v[..b].to_vec()))
}
pub fn str_is_char_boundary(s: &str, k: usize) -> bool {
	boundary(&cv(s), k).is_some()
}
pub fn str_split_at(s: &str, k: usize) -> (&str, &str) {
	let v = cv(s);
	let a = char_at(&v, k);
	(leak(v[..a].to_vec()), leak(v[a..].to_vec()))
}
pub fn str_eq(a: &str, b: &str) -> bool {
	let (a, b) = (cv(a), cv(b));
	a.len() == b.len() && starts(&a, &b)
}
pub fn str_cmp(a: &str, b: &str) -> Ordering {
	// byte order of UTF-8 is the order of the scalar values
	let (a, b) = (cv(a), cv(b));
	let mut k = 0;
	loop {
		match (a.get(k), b.get(k)) {
			(None, None) => return Ordering::Equal,
			(None, _) => return Ordering::Less,
			(_, None) => return Ordering::Greater,
			(Some(x), Some(y)) => {
				if *x != *y {
					return if *x < *y { Ordering::Less } else { Ordering::Greater };
				}
			}
		}
		k += 1;
	}
}
pub fn str_eq_ignore_ascii_case(a: &str, b: &str) -> bool {
	let (a, b) = (cv(a), cv(b));
	if a.len() != b.len() {
		return false;
	}
	for k in 0..a.len() {
		if a[k].to_ascii_lowercase() != b[k].to_ascii_lowercase() {
			return false;
		}
	}
	true
}
pub fn str_concat<'a, S: AsRef<str>>(s: &[S], sep: &str) -> String {
	let mut out = Vec::new();
	let mut first = true;
	for x in s {
		if !first {
			out.append(&mut cv(sep));
		}
		first = false;
		out.append(&mut cv(x.as_ref()));
	}
	mk(out)
}
pub fn str_concat0<S: AsRef<str>>(s: &[S]) -> String {
	str_concat(s, "")
}
pub fn string_retain<F: FnMut(char) -> bool>(s: &mut String, mut f: F) {
	let mut v = Vec::new();
	for c in cv(s) {
		if f(c) {
			v.push(c);
		}
	}
	*s = mk(v);
}
pub fn string_truncate(s: &mut String, n: usize) {
	if n >= s.len() {
		return;
	}
	let mut v = cv(s);
	let k = char_at(&v, n);
	v.truncate(k);
	*s = mk(v);
}
pub fn string_remove(s: &mut String, n: usize) -> char {
	let mut v = cv(s);
	let k = char_at(&v, n);
	let c = v.remove(k);
	*s = mk(v);
	c
}
pub fn string_insert(s: &mut String, n: usize, c: char) {
	let mut v = cv(s);
	let k = char_at(&v, n);
	v.insert(k, c);
	*s = mk(v);
}
pub fn string_insert_str(s: &mut String, n: usize, t: &str) {
	let mut v = cv(s);
	let mut k = char_at(&v, n);
	for c in cv(t) {
		v.insert(k, c);
		k += 1;
	}
	*s = mk(v);
}
pub fn string_split_off(s: &mut String, n: usize) -> String {
	let mut v = cv(s);
	let k = char_at(&v, n);
	let w = vec_split_off(&mut v, k);
	*s = mk(v);
	mk(w)
}
pub fn string_drain<R: RangeBounds<usize>>(s: &mut String, r: R) -> std::vec::IntoIter<char> {
	let (a, b) = bounds(&r, s.len());
	let mut v = cv(s);
	let a = char_at(&v, a);
	let b = char_at(&v, b);
	let w = vec_drain(&mut v, a..b);
	*s = mk(v);
	w
}
pub fn string_extend_strs<'a, I: IntoIterator<Item = &'a str>>(s: &mut String, it: I) {
	let mut it = it.into_iter();
	while let Some(x) = it.next() {
		s.push_str(x);
	}
}
pub fn string_from_iter_strs<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String {
	let mut it = it.into_iter();
	let mut s = String::new();
	while let Some(x) = it.next() {
		s.push_str(x);
	}
	s
}
pub fn string_extend_owned<I: IntoIterator<Item = String>>(s: &mut String, it: I) {
	let mut it = it.into_iter();
	while let Some(x) = it.next() {
		s.push_str(&x);
	}
}
pub fn string_from_iter_owned<I: IntoIterator<Item = String>>(it: I) -> String {
	let mut it = it.into_iter();
	let mut s = String::new();
	while let Some(x) = it.next() {
		s.push_str(&x);
	}
	s
}
pub fn string_extend_ref<'a, I: IntoIterator<Item = &'a char>>(s: &mut String, it: I) {
	let mut it = it.into_iter();
	while let Some(x) = it.next() {
		s.push(*x);
	}
}
pub fn string_from_iter_ref<'a, I: IntoIterator<Item = &'a char>>(it: I) -> String {
	let mut it = it.into_iter();
	let mut s = String::new();
	while let Some(x) = it.next() {
		s.push(*x);
	}
	s
}
pub fn string_add(mut s: String, t: &str) -> String {
	s.push_str(t);
	s
}
pub fn string_add_assign(s: &mut String, t: &str) {
	s.push_str(t);
}
pub fn slice_concat<T: Clone, V: Borrow<[T]>>(s: &[V]) -> Vec<T> {
	let mut out = Vec::new();
	for x in s {
		for y in x.borrow() {
			out.push(y.clone());
		}
	}
	out
}
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
	vec_dedup_by(v, |a, b| *a == *b);
}
pub fn vec_dedup_by_key<T, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
	vec_dedup_by(v, |a, b| f(a) == f(b));
}
pub fn str_eq_ref(a: &str, b: &&str) -> bool {
	str_eq(a, *b)
}
pub fn str_ref_eq(a: &&str, b: &str) -> bool {
	str_eq(*a, b)
}
