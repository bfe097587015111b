//! Programs whose result must be inferred to be `true` for every input of three
//! bytes: a check that the analyzer understands the library functions a change
//! to the code might start to use.  Never executed by the checks.
#![feature(try_trait_v2)]
#![allow(clippy::all)]
use winnow::combinator::*;
use winnow::error::{ContextError, ErrMode, ParserError, StrContext};
use winnow::prelude::*;
use winnow::stream::Stream;
use winnow::token::*;
use winnow::{binary, Bytes};

#[path = "../../harness/src/model.rs"]
pub mod model;

type I<'a, 'b> = &'a mut &'b Bytes;
type E = ErrMode<ContextError>;
fn b(i: &mut &Bytes) -> [u8; 3] {
	[i[0], i[1], i[2]]
}
fn v(i: &mut &Bytes) -> Vec<u8> {
	vec![i[0], i[1], i[2]]
}
/// three ASCII characters
fn asc(i: &mut &Bytes) -> String {
	let [x, y, z] = b(i);
	let mut s = String::new();
	for c in [x, y, z] {
		s.push((c & 0x7F) as char);
	}
	s
}
fn chk(x: &[u8]) -> u8 {
	x.iter().fold(0u8, |a, b| a.wrapping_add(*b))
}

// ---- slices -----------------------------------------------------------------
pub fn st_slice_first_last(i: I) -> bool {
	let x = b(i);
	x.first() == Some(&x[0]) && x.last() == Some(&x[2]) && x.get(3).is_none()
}
pub fn st_slice_chunks(i: I) -> bool {
	let x = b(i);
	let mut n = 0;
	for c in x.chunks(2) {
		n += c.len();
	}
	n == 3 && x.chunks(2).count() == 2 && x.chunks_exact(2).count() == 1
}
pub fn st_slice_windows(i: I) -> bool {
	let x = b(i);
	x.windows(2).map(|w| w[0] as u32 + w[1] as u32).sum::<u32>() == x[0] as u32 + 2 * x[1] as u32 + x[2] as u32
}
pub fn st_slice_split(i: I) -> bool {
	let x = b(i);
	let (p, q) = x.split_at(1);
	p == [x[0]] && q == [x[1], x[2]] && x.split_first().unwrap().1.len() == 2 && x.split_last().unwrap().1.len() == 2
}
pub fn st_slice_split_first_chunk(i: I) -> bool {
	let x = b(i);
	let Some((p, q)) = x.split_first_chunk::<2>() else { return false };
	p[0] == x[0] && q[0] == x[2] && x.first_chunk::<2>().is_some()
}
pub fn st_slice_rev(i: I) -> bool {
	let mut x = b(i);
	let y = x;
	x.reverse();
	x[0] == y[2] && x[1] == y[1] && x[2] == y[0]
}
pub fn st_slice_concat(i: I) -> bool {
	let x = b(i);
	let y = [&x[..1], &x[1..]].concat();
	y.len() == 3 && y[2] == x[2]
}
pub fn st_slice_contains(i: I) -> bool {
	let x = b(i);
	x.contains(&x[1]) && x.starts_with(&x[..2]) && x.ends_with(&x[1..])
}
pub fn st_slice_position(i: I) -> bool {
	let x = b(i);
	match x.iter().position(|y| *y == 7) {
		Some(k) => x[k] == 7,
		None => x[0] != 7 && x[1] != 7 && x[2] != 7,
	}
}
pub fn st_slice_rposition(i: I) -> bool {
	let x = b(i);
	match x.iter().rposition(|y| *y == 7) {
		Some(k) => x[k] == 7,
		None => x[0] != 7 && x[1] != 7 && x[2] != 7,
	}
}
pub fn st_slice_copy(i: I) -> bool {
	let x = b(i);
	let mut y = [0u8; 4];
	y[..3].copy_from_slice(&x);
	y[0] == x[0] && y[2] == x[2] && y[3] == 0
}
pub fn st_slice_clone_from(i: I) -> bool {
	let x = b(i);
	let mut y = [0u8; 3];
	y.clone_from_slice(&x[..]);
	y == x
}
pub fn st_slice_fill(i: I) -> bool {
	let mut x = b(i);
	x.fill(3);
	x == [3, 3, 3]
}
pub fn st_slice_swap(i: I) -> bool {
	let mut x = b(i);
	let y = x;
	x.swap(0, 2);
	x[0] == y[2] && x[2] == y[0]
}
pub fn st_slice_rotate(i: I) -> bool {
	let mut x = b(i);
	let y = x;
	x.rotate_left(1);
	x[0] == y[1] && x[2] == y[0]
}
pub fn st_slice_cmp(i: I) -> bool {
	let x = b(i);
	x[..2] == x[..2] && (x[0] == x[1]) == (x[..1] == x[1..2])
}
pub fn st_slice_order(i: I) -> bool {
	let x = b(i);
	(x[..1] < x[1..2]) == (x[0] < x[1])
}
pub fn st_slice_sort(i: I) -> bool {
	let mut x = b(i);
	x[0] &= 3;
	x[1] &= 3;
	x[2] &= 3;
	x.sort_unstable();
	x[0] <= x[1] && x[1] <= x[2]
}
pub fn st_slice_binary_search(i: I) -> bool {
	let x = b(i);
	match [1u8, 5, 9].binary_search(&x[0]) {
		Ok(k) => k < 3 && [1u8, 5, 9][k] == x[0],
		Err(_) => x[0] != 1 && x[0] != 5 && x[0] != 9,
	}
}
pub fn st_slice_iter_mut(i: I) -> bool {
	let mut x = b(i);
	let y = x;
	for q in x.iter_mut() {
		*q = q.wrapping_add(1);
	}
	x[1] == y[1].wrapping_add(1)
}
pub fn st_slice_repeat(i: I) -> bool {
	let x = b(i);
	let y = [x[0]].repeat(3);
	y.len() == 3 && y[2] == x[0]
}
pub fn st_array_from_fn(i: I) -> bool {
	let x = b(i);
	let y: [u8; 3] = std::array::from_fn(|k| x[2 - k]);
	y[0] == x[2] && y[2] == x[0]
}
pub fn st_array_map(i: I) -> bool {
	let x = b(i);
	let y = x.map(|q| q as u16 + 1);
	y[1] == x[1] as u16 + 1
}
pub fn st_try_into(i: I) -> bool {
	let x = b(i);
	let Ok(y): Result<[u8; 2], _> = x[..2].try_into() else { return false };
	let z: Result<[u8; 2], _> = <[u8; 2]>::try_from(&x[..]);
	u16::from_le_bytes(y) == x[0] as u16 | (x[1] as u16) << 8 && z.is_err()
}
pub fn st_to_vec(i: I) -> bool {
	let x = b(i);
	let y = x[1..].to_vec();
	let z: Vec<u8> = x[..].into();
	let w = Vec::from(x);
	let u: Box<[u8]> = x.to_vec().into_boxed_slice();
	y.len() == 2 && y[0] == x[1] && z[2] == x[2] && w[1] == x[1] && u[0] == x[0]
}

// ---- iterators ---------------------------------------------------------------
pub fn st_it_sum(i: I) -> bool {
	let x = b(i);
	let s: u32 = x.iter().map(|q| u32::from(*q)).sum();
	let p: u32 = x.iter().take(1).map(|q| u32::from(*q)).product();
	s == x[0] as u32 + x[1] as u32 + x[2] as u32 && p == x[0] as u32
}
pub fn st_it_fold(i: I) -> bool {
	let x = b(i);
	x.iter().fold(0u32, |a, q| a << 8 | u32::from(*q)) == u32::from_be_bytes([0, x[0], x[1], x[2]])
}
pub fn st_it_rfold(i: I) -> bool {
	let x = b(i);
	x.iter().rfold(0u32, |a, q| a << 8 | u32::from(*q)) == u32::from_le_bytes([x[0], x[1], x[2], 0])
}
pub fn st_it_rev_enum(i: I) -> bool {
	let x = b(i);
	let mut n = 0u32;
	for (k, q) in x.iter().enumerate().rev() {
		n |= (*q as u32) << (8 * k);
	}
	n == u32::from_le_bytes([x[0], x[1], x[2], 0])
}
pub fn st_it_try_fold(i: I) -> bool {
	let x = b(i);
	let r = x.iter().try_fold(0u8, |a, q| a.checked_add(*q));
	match r {
		Some(v) => v as u32 == x[0] as u32 + x[1] as u32 + x[2] as u32,
		None => x[0] as u32 + x[1] as u32 + x[2] as u32 > 255,
	}
}
pub fn st_it_all_any(i: I) -> bool {
	let x = b(i);
	x.iter().all(|q| *q < 10) == (x[0] < 10 && x[1] < 10 && x[2] < 10) && x.iter().any(|q| *q < 10) == (x[0] < 10 || x[1] < 10 || x[2] < 10)
}
pub fn st_it_zip_chain(i: I) -> bool {
	let x = b(i);
	let n: u32 = x.iter().zip(1..).map(|(q, k): (&u8, u32)| *q as u32 * k).sum();
	let m = x.iter().chain([1u8, 2].iter()).count();
	n == x[0] as u32 + 2 * x[1] as u32 + 3 * x[2] as u32 && m == 5
}
pub fn st_it_skip_take(i: I) -> bool {
	let x = b(i);
	let v: Vec<u8> = x.iter().skip(1).take(1).copied().collect();
	v == [x[1]] && x.iter().step_by(2).count() == 2 && x.iter().nth(2) == Some(&x[2])
}
pub fn st_it_while(i: I) -> bool {
	let x = b(i);
	let n = x.iter().take_while(|q| **q != 0).count();
	let m = x.iter().skip_while(|q| **q != 0).count();
	n + m == 3
}
pub fn st_it_map_while(i: I) -> bool {
	let x = b(i);
	let v: Vec<u8> = x.iter().map_while(|q| q.checked_sub(1)).collect();
	v.len() <= 3 && (x[0] != 0) == (v.len() > 0)
}
pub fn st_it_filter(i: I) -> bool {
	let x = b(i);
	let v: Vec<u8> = x.iter().copied().filter(|q| *q != 0).collect();
	v.iter().all(|q| *q != 0)
}
pub fn st_it_filter_map(i: I) -> bool {
	let x = b(i);
	x.iter().filter_map(|q| q.checked_sub(200)).all(|q| q <= 55)
}
pub fn st_it_flat_map(i: I) -> bool {
	let x = b(i);
	let v: Vec<u8> = x.iter().flat_map(|q| [q & 15, q >> 4]).collect();
	v.len() == 6 && v[0] == x[0] & 15 && v[5] == x[2] >> 4
}
pub fn st_it_flatten(i: I) -> bool {
	let x = b(i);
	let v: Vec<u8> = [Some(x[0]), None, Some(x[2])].into_iter().flatten().collect();
	v == [x[0], x[2]]
}
pub fn st_it_scan(i: I) -> bool {
	let x = b(i);
	let v: Vec<u32> = x
		.iter()
		.scan(0u32, |a, q| {
			*a += *q as u32;
			Some(*a)
		})
		.collect();
	v[2] == x[0] as u32 + x[1] as u32 + x[2] as u32
}
pub fn st_it_peekable(i: I) -> bool {
	let x = b(i);
	let mut p = x.iter().peekable();
	let first = **p.peek().unwrap();
	first == x[0] && p.next_if(|q| **q == x[0]).is_some() && p.count() == 2
}
pub fn st_it_min_max(i: I) -> bool {
	let x = b(i);
	let (lo, hi) = (x.iter().min().unwrap(), x.iter().max().unwrap());
	lo <= hi && x[1] >= *lo && x[1] <= *hi && x.iter().max_by_key(|q| **q).unwrap() == hi
}
pub fn st_it_reduce(i: I) -> bool {
	let x = b(i);
	x.into_iter().reduce(|a, q| a ^ q) == Some(x[0] ^ x[1] ^ x[2])
}
pub fn st_it_last(i: I) -> bool {
	let x = b(i);
	x.iter().last() == Some(&x[2]) && x.into_iter().last() == Some(x[2])
}
pub fn st_it_partition(i: I) -> bool {
	let x = b(i);
	let (p, q): (Vec<u8>, Vec<u8>) = x.into_iter().partition(|q| *q > 9);
	p.len() + q.len() == 3
}
pub fn st_it_unzip(i: I) -> bool {
	let x = b(i);
	let (p, q): (Vec<u8>, Vec<u8>) = x.iter().map(|q| (q & 15, q >> 4)).unzip();
	p.len() == 3 && q[1] == x[1] >> 4
}
pub fn st_it_eq_cmp(i: I) -> bool {
	let x = b(i);
	x.iter().eq(x.iter()) && x.iter().rev().rev().eq(x.iter()) && !x.iter().ne(x.iter())
}
pub fn st_it_successors(i: I) -> bool {
	let x = b(i);
	std::iter::successors(Some(x[0] & 3), |q| q.checked_sub(1)).count() == (x[0] & 3) as usize + 1
}
pub fn st_it_from_fn(i: I) -> bool {
	let x = b(i);
	let mut k = 0;
	let v: Vec<u8> = std::iter::from_fn(|| {
		k += 1;
		x.get(k - 1).copied()
	})
	.collect();
	v == x
}
pub fn st_it_repeat(i: I) -> bool {
	let x = b(i);
	let v: Vec<u8> = std::iter::repeat(x[0]).take(3).collect();
	let w: Vec<u8> = std::iter::repeat_n(x[1], 2).collect();
	let o: Vec<u8> = std::iter::once(x[2]).chain(std::iter::empty()).collect();
	v == [x[0]; 3] && w.len() == 2 && o == [x[2]]
}
pub fn st_it_collect_result(i: I) -> bool {
	let x = b(i);
	let r: Result<Vec<u8>, ()> = x.iter().map(|q| if *q < 10 { Ok(*q) } else { Err(()) }).collect();
	r.is_ok() == x.iter().all(|q| *q < 10)
}
pub fn st_it_collect_option(i: I) -> bool {
	let x = b(i);
	let r: Option<Vec<char>> = x.iter().map(|q| char::from_digit(*q as u32, 10)).collect();
	r.is_some() == (x[0] < 10 && x[1] < 10 && x[2] < 10)
}
pub fn st_it_sum_option(i: I) -> bool {
	let x = b(i);
	let r: Option<u32> = x.iter().map(|q| (*q as char).to_digit(10)).sum();
	r.is_none_or(|q| q <= 27)
}
pub fn st_it_try_for_each(i: I) -> bool {
	let x = b(i);
	let r = x.iter().try_for_each(|q| if *q == 0 { Err(*q) } else { Ok(()) });
	r.is_err() == x.contains(&0)
}
pub fn st_it_for_each(i: I) -> bool {
	let x = b(i);
	let mut n = 0u32;
	x.iter().for_each(|q| n += *q as u32);
	n == x.iter().map(|q| *q as u32).sum::<u32>()
}
pub fn st_it_find(i: I) -> bool {
	let x = b(i);
	x.iter().find(|q| **q == 9).is_some() == x.contains(&9) && x.iter().find_map(|q| q.checked_sub(255)).is_none_or(|q| q == 0)
}
pub fn st_it_range(i: I) -> bool {
	let x = b(i);
	let mut n = 0u32;
	for k in (0..3).rev() {
		n = n << 8 | x[k] as u32;
	}
	for k in (0..=2).step_by(2) {
		n ^= (x[k] as u32) << (8 * k);
	}
	n == (x[1] as u32) << 8
}
pub fn st_it_inspect(i: I) -> bool {
	let x = b(i);
	let mut n = 0;
	let v: Vec<u8> = x.iter().copied().inspect(|_| n += 1).collect();
	n == 3 && v == x
}
pub fn st_it_cycle(i: I) -> bool {
	let x = b(i);
	let v: Vec<u8> = x.iter().copied().cycle().take(4).collect();
	v[3] == x[0]
}
pub fn st_it_is_sorted(i: I) -> bool {
	let x = b(i);
	x.is_sorted() == (x[0] <= x[1] && x[1] <= x[2])
}
pub fn st_it_array_chunks(i: I) -> bool {
	let x = b(i);
	let (c, r) = x.as_chunks::<2>();
	c.len() == 1 && r.len() == 1 && c[0][1] == x[1]
}

// ---- Vec -------------------------------------------------------------------------
pub fn st_vec_macro(i: I) -> bool {
	let x = b(i);
	let v = vec![x[0]; 3];
	let w: Vec<u8> = vec![];
	v.len() == 3 && v[2] == x[0] && w.is_empty()
}
pub fn st_vec_into_iter_try_fold(i: I) -> bool {
	let x = v(i);
	let [p, q, r] = b(i);
	x.into_iter().try_fold(0u8, |a, q| a.checked_add(q)).is_some() == (p as u32 + q as u32 + (r as u32) < 256)
}
pub fn st_vec_into_iter_misc(i: I) -> bool {
	let [p, q, r] = b(i);
	let n = v(i).into_iter().nth(1) == Some(q);
	let l = v(i).into_iter().last() == Some(r);
	let s = v(i).into_iter().skip(1).count() == 2;
	let f = v(i).into_iter().fold(0u8, |a, q| a ^ q) == p ^ q ^ r;
	let g = v(i).into_iter().rev().fold(0u8, |a, q| a ^ q) == p ^ q ^ r;
	let a = v(i).into_iter().all(|q| q < 5) == (p < 5 && q < 5 && r < 5);
	let m = v(i).into_iter().max() == Some(p.max(q).max(r));
	let o = v(i).into_iter().position(|z| z == p) == Some(0);
	n && l && s && f && g && a && m && o
}
pub fn st_array_into_iter_misc(i: I) -> bool {
	let [p, q, r] = b(i);
	let n = b(i).into_iter().nth(1) == Some(q);
	let l = b(i).into_iter().last() == Some(r);
	let s = b(i).into_iter().skip(1).count() == 2;
	let f = b(i).into_iter().fold(0u8, |a, q| a ^ q) == p ^ q ^ r;
	let g = b(i).into_iter().rev().fold(0u8, |a, q| a ^ q) == p ^ q ^ r;
	let a = b(i).into_iter().all(|q| q < 5) == (p < 5 && q < 5 && r < 5);
	let z = b(i).into_iter().zip(b(i)).all(|(p, q)| p == q);
	let t = b(i).into_iter().rev().try_fold(0u8, |a, q| a.checked_add(q)).is_some() == (p as u32 + q as u32 + (r as u32) < 256);
	n && l && s && f && g && a && z && t
}
pub fn st_vec_retain(i: I) -> bool {
	let mut x = v(i);
	x.retain(|q| *q != 0);
	x.iter().all(|q| *q != 0)
}
pub fn st_vec_dedup(i: I) -> bool {
	let mut x = v(i);
	x.dedup();
	x.len() >= 1 && x.len() <= 3
}
pub fn st_vec_drain(i: I) -> bool {
	let mut x = v(i);
	let y: Vec<u8> = x.drain(..2).collect();
	y.len() == 2 && x.len() == 1 && x[0] == b(i)[2]
}
pub fn st_vec_resize(i: I) -> bool {
	let mut x = v(i);
	x.resize(5, 9);
	x.len() == 5 && x[4] == 9 && {
		x.resize(2, 0);
		x.len() == 2
	}
}
pub fn st_vec_split_off(i: I) -> bool {
	let mut x = v(i);
	let y = x.split_off(1);
	x.len() == 1 && y.len() == 2 && y[1] == b(i)[2]
}
pub fn st_vec_extend(i: I) -> bool {
	let mut x = v(i);
	x.extend_from_slice(&b(i));
	x.extend(b(i));
	x.extend(b(i).iter());
	x.extend(Some(3));
	x.extend_from_within(..1);
	x.len() == 14 && x[3] == x[0] && x[13] == x[0]
}
pub fn st_vec_misc(i: I) -> bool {
	let mut x = v(i);
	x.insert(1, 7);
	let r = x.remove(0);
	x.swap(0, 1);
	let first = x.first().copied();
	let last = x.last_mut().map(|q| {
		*q = 4;
		*q
	});
	x.reverse();
	r == b(i)[0] && first == Some(b(i)[1]) && last == Some(4) && x[0] == 4
}
pub fn st_vec_pop_if(i: I) -> bool {
	let mut x = v(i);
	let mut n = 0;
	while x.last() == Some(&0) {
		x.pop();
		n += 1;
	}
	x.len() + n == 3
}
pub fn st_vec_eq(i: I) -> bool {
	let x = v(i);
	x == b(i) && x == x.clone() && x.as_slice() == &b(i)[..] && x != vec![0u8; 2]
}
pub fn st_vec_index_ranges(i: I) -> bool {
	let x = v(i);
	x[..2].len() == 2 && x[1..].len() == 2 && x[1..=1] == [b(i)[1]] && x.get(1..5).is_none() && x.get(..2).is_some()
}
pub fn st_vec_from_iter_rev(i: I) -> bool {
	let x: Vec<u8> = v(i).into_iter().rev().collect();
	x[0] == b(i)[2] && x.iter().rev().cloned().collect::<Vec<_>>() == v(i)
}
pub fn st_vec_concat_join(i: I) -> bool {
	let x = vec![v(i), v(i)];
	x.concat().len() == 6
}
pub fn st_vec_sort(i: I) -> bool {
	let mut x: Vec<u8> = v(i).into_iter().map(|q| q & 1).collect();
	x.sort();
	x[0] <= x[1] && x[1] <= x[2]
}
pub fn st_vec_box(i: I) -> bool {
	let x = Box::new(b(i));
	let y = *x;
	y == b(i)
}
pub fn st_vecdeque(i: I) -> bool {
	let [p, q, _] = b(i);
	let o = Some(p).or(Some(q)).xor(None).zip(Some(q));
	o == Some((p, q))
}

// ---- integers -----------------------------------------------------------------
pub fn st_int_checked(i: I) -> bool {
	let [p, q, _] = b(i);
	let (p, q) = (p as i8, q as i8);
	p.checked_add(q).is_some() == (p as i32 + q as i32 >= -128 && p as i32 + q as i32 <= 127) && p.checked_neg().is_none() == (p == -128)
}
pub fn st_int_saturating(i: I) -> bool {
	let [p, q, _] = b(i);
	p.saturating_sub(q) as i32 == (p as i32 - q as i32).max(0) && p.saturating_add(q) as u32 == (p as u32 + q as u32).min(255)
}
pub fn st_int_wrapping(i: I) -> bool {
	let [p, q, _] = b(i);
	p.wrapping_sub(q).wrapping_add(q) == p && p.wrapping_neg() == 0u8.wrapping_sub(p) && p.overflowing_add(q).1 == (p as u32 + q as u32 > 255)
}
pub fn st_int_abs(i: I) -> bool {
	let [p, q, _] = b(i);
	(p as i8 as i32).abs() >= 0 && p.abs_diff(q) == p.max(q) - p.min(q) && (p as i8).unsigned_abs() <= 128 && (p as i8).signum().abs() <= 1
}
pub fn st_int_pow(i: I) -> bool {
	let [p, ..] = b(i);
	10u32.pow((p & 3) as u32) <= 1000 && 2i64.pow(3) == 8 && 10u64.checked_pow(30).is_none()
}
pub fn st_int_shift(i: I) -> bool {
	let [p, ..] = b(i);
	(p as u32).checked_shl(4) == Some((p as u32) << 4) && p.rotate_left(4) == (p >> 4 | p << 4) && p.swap_bytes() == p
}
pub fn st_int_bits(i: I) -> bool {
	let [p, ..] = b(i);
	p.count_ones() <= 8 && p.leading_zeros() <= 8 && (p == 0) == (p.trailing_zeros() == 8) && p.reverse_bits().reverse_bits() == p && (!p).count_ones() == p.count_zeros()
}
pub fn st_int_div(i: I) -> bool {
	let [p, ..] = b(i);
	p / 10 * 10 + p % 10 == p && (p as i32 - 128).rem_euclid(16) >= 0 && p.div_ceil(16) <= 16 && (p > 252 || p.next_multiple_of(4) >= p)
}
pub fn st_int_clamp(i: I) -> bool {
	let [p, ..] = b(i);
	p.clamp(3, 9) >= 3 && p.clamp(3, 9) <= 9 && (1..=9).contains(&p.clamp(3, 9))
}
pub fn st_int_conv(i: I) -> bool {
	let [p, q, _] = b(i);
	let w = u16::from_be_bytes([p, q]);
	u8::try_from(w).is_ok() == (p == 0) && i8::try_from(p).is_ok() == (p < 128) && i64::from(w) >= 0 && usize::from(p) < 256 && w.to_le_bytes()[0] == q && u32::from(w).to_be_bytes()[3] == q
}
pub fn st_int_ne(i: I) -> bool {
	let [p, q, r] = b(i);
	u32::from_ne_bytes([p, q, r, 0]) == p as u32 + 256 * (q as u32) + 65536 * (r as u32)
}
pub fn st_int_parse(i: I) -> bool {
	let [p, ..] = b(i);
	let s = if p < 128 { "12" } else { "-3" };
	s.parse::<i64>() == Ok(if p < 128 { 12 } else { -3 })
}
pub fn st_int_radix(i: I) -> bool {
	let [p, ..] = b(i);
	let s = if p < 128 { "1f" } else { "zz" };
	i64::from_str_radix(s, 16).is_ok() == (p < 128)
}
pub fn st_int_bool(i: I) -> bool {
	let [p, ..] = b(i);
	(p > 5).then(|| p).is_some() == (p > 5) && (p > 5).then_some(1).unwrap_or(0) == u8::from(p > 5) && i32::from(p > 5) <= 1 && (p > 5) as i64 <= 1
}
pub fn st_int_cmp(i: I) -> bool {
	let [p, q, _] = b(i);
	use std::cmp::Ordering::*;
	let o = match p.cmp(&q) {
		Less => p < q,
		Equal => p == q,
		Greater => p > q,
	};
	o && p.cmp(&q).reverse() == q.cmp(&p) && p.max(q) >= p && std::cmp::min(p, q) <= q && (p, q) <= (p, q) && p.partial_cmp(&q).is_some()
}
pub fn st_int_nonzero(i: I) -> bool {
	let [p, ..] = b(i);
	std::num::NonZeroU8::new(p).is_some() == (p != 0)
}
pub fn st_float(i: I) -> bool {
	let [p, q, r] = b(i);
	let f = f32::from_bits(u32::from_le_bytes([p, q, r, 0x40]));
	f.to_bits() == u32::from_le_bytes([p, q, r, 0x40])
}
pub fn st_float_bytes(i: I) -> bool {
	let [p, q, r] = b(i);
	f32::from_le_bytes([p, q, r, 0x40]).to_bits() == u32::from_le_bytes([p, q, r, 0x40]) && f32::from_be_bytes([p, q, r, 0x40]).to_le_bytes()[0] == 0x40
}
pub fn st_float_class(i: I) -> bool {
	let [p, q, r] = b(i);
	let f = f32::from_bits(u32::from_le_bytes([p, q, r, 0x7F]));
	f.is_nan() == (u32::from_le_bytes([p, q, r, 0x7F]) > 0x7F80_0000) && f.is_finite() == (u32::from_le_bytes([p, q, r, 0x7F]) < 0x7F80_0000)
}

// ---- Option / Result ------------------------------------------------------------
pub fn st_option(i: I) -> bool {
	let [p, q, _] = b(i);
	let o = if p < 9 { Some(q) } else { None };
	o.map_or(true, |z| z == q)
		&& o.is_some_and(|z| z == q) == (p < 9)
		&& o.and_then(|z| z.checked_add(1)).is_none() == (p >= 9 || q == 255)
		&& o.unwrap_or_default() == if p < 9 { q } else { 0 }
		&& o.ok_or(()).is_ok() == (p < 9)
		&& o.filter(|z| *z == 0).is_some() == (p < 9 && q == 0)
		&& o.map_or_else(|| 1, |z| z as u32 + 1) >= 1
		&& o.or(Some(1)).is_some()
		&& o.or_else(|| Some(1)).is_some()
		&& o.iter().count() == (p < 9) as usize
		&& o.as_ref().copied() == o
		&& o.xor(None) == o
}
pub fn st_option_mut(i: I) -> bool {
	let [p, ..] = b(i);
	let mut o = Some(p);
	let t = o.take();
	let r = o.replace(3);
	let g = *o.get_or_insert(7);
	let z = o.insert(9);
	*z += 1;
	t == Some(p) && r.is_none() && g == 3 && o == Some(10)
}
pub fn st_result(i: I) -> bool {
	let [p, q, _] = b(i);
	let o: Result<u8, u8> = if p < 9 { Ok(q) } else { Err(p) };
	o.map(|z| z as u32 + 1).unwrap_or(1) >= 1
		&& o.map_err(|z| z as u32 * 2).is_err() == (p >= 9)
		&& o.ok().is_some() == (p < 9)
		&& o.err().is_some() == (p >= 9)
		&& o.and_then(|z| z.checked_add(1).ok_or(0)).is_ok() == (p < 9 && q < 255)
		&& o.or_else(|z| if z > 100 { Ok(z) } else { Err(z) }).is_err() == (p >= 9 && p <= 100)
		&& o.unwrap_or_else(|z| z) == if p < 9 { q } else { p }
		&& o.is_ok_and(|z| z == q) == (p < 9)
		&& o.iter().count() <= 1
}
pub fn st_question(i: I) -> bool {
	fn f(p: u8) -> Option<u8> {
		let q = p.checked_sub(3)?;
		Some(q)
	}
	fn g(p: u8) -> Result<u8, String> {
		f(p).ok_or_else(|| "no".to_owned())
	}
	let [p, ..] = b(i);
	g(p).is_ok() == (p >= 3)
}
pub fn st_option_transpose(i: I) -> bool {
	let [p, ..] = b(i);
	let o: Option<Result<u8, ()>> = if p < 3 { None } else if p < 9 { Some(Ok(p)) } else { Some(Err(())) };
	matches!(o.transpose(), Ok(None)) == (p < 3)
}
pub fn st_mem(i: I) -> bool {
	let [mut p, mut q, r] = b(i);
	std::mem::swap(&mut p, &mut q);
	let o = std::mem::replace(&mut p, r);
	let z = std::mem::take(&mut p);
	o == b(i)[1] && q == b(i)[0] && z == r && p == 0
}

// ---- text ---------------------------------------------------------------------------
pub fn st_str_ascii(i: I) -> bool {
	let s = asc(i);
	s.len() == 3 && s.chars().count() == 3 && s.is_ascii() && !s.is_empty()
}
pub fn st_str_trim(i: I) -> bool {
	let s = asc(i);
	let t = s.trim_end();
	!t.ends_with(' ') && t.len() <= 3
}
pub fn st_str_trim2(i: I) -> bool {
	let s = asc(i);
	let t = s.trim();
	let u = s.trim_start();
	!t.starts_with(' ') && !u.starts_with(' ')
}
pub fn st_str_trim_matches(i: I) -> bool {
	let s = asc(i);
	let t = s.trim_end_matches('\0').to_string();
	let u = s.trim_start_matches('0').to_owned();
	let w = s.trim_matches(|c: char| c == 'x');
	!t.ends_with('\0') && !u.starts_with('0') && !w.starts_with('x') && !w.ends_with('x')
}
pub fn st_str_trim_ascii(i: I) -> bool {
	let x = b(i);
	x.trim_ascii_end().last() != Some(&b' ')
}
pub fn st_str_strip(i: I) -> bool {
	let s = asc(i);
	s.strip_prefix('-').is_some() == (b(i)[0] & 0x7F == b'-') && s.strip_suffix("a").is_some() == (b(i)[2] & 0x7F == b'a')
}
pub fn st_str_find(i: I) -> bool {
	let s = asc(i);
	let x = b(i).map(|q| q & 0x7F);
	s.contains('a') == x.contains(&b'a') && s.find('a').is_some() == x.contains(&b'a') && s.contains("a") == x.contains(&b'a')
}
pub fn st_str_find_at(i: I) -> bool {
	let s = asc(i);
	match s.find('\0') {
		Some(k) => s.as_bytes()[k] == 0,
		None => s.chars().all(|c| c != '\0'),
	}
}
pub fn st_str_slice(i: I) -> bool {
	let s = asc(i);
	s[1..].len() == 2 && s[..1].chars().next() == s.chars().next() && s.get(..5).is_none()
}
pub fn st_str_bytes(i: I) -> bool {
	let s = asc(i);
	s.as_bytes()[1] == b(i)[1] & 0x7F && s.bytes().count() == 3 && s.bytes().rev().next() == Some(b(i)[2] & 0x7F)
}
pub fn st_str_into_bytes(i: I) -> bool {
	let s = asc(i);
	let x = s.into_bytes();
	x.len() == 3 && x[0] == b(i)[0] & 0x7F
}
pub fn st_str_rev(i: I) -> bool {
	let s = asc(i);
	let r: String = s.chars().rev().collect();
	r.chars().rev().collect::<String>() == s
}
pub fn st_str_replace(i: I) -> bool {
	let s = asc(i);
	!s.replace('\0', " ").contains('\0')
}
pub fn st_str_retain(i: I) -> bool {
	let mut s = asc(i);
	s.retain(|c| c != '\0');
	!s.contains('\0')
}
pub fn st_str_case(i: I) -> bool {
	let s = asc(i);
	s.to_ascii_uppercase().chars().all(|c| !c.is_ascii_lowercase()) && s.eq_ignore_ascii_case(&s.to_ascii_lowercase())
}
pub fn st_str_case2(i: I) -> bool {
	let mut s = asc(i);
	s.make_ascii_uppercase();
	s.chars().all(|c| !c.is_ascii_lowercase())
}
pub fn st_str_eq(i: I) -> bool {
	let s = asc(i);
	let x = b(i).map(|q| q & 0x7F);
	(s == "abc") == (x == *b"abc") && (s.as_str() == "abc") == (&*s == "abc")
}
pub fn st_str_push(i: I) -> bool {
	let mut s = asc(i);
	s.push_str("-x");
	s.insert(0, '-');
	s += "y";
	let t = s.clone() + "z";
	s.len() == 7 && t.ends_with("xyz") && s.remove(0) == '-' && s.pop() == Some('y') && s.len() == 5
}
pub fn st_str_truncate(i: I) -> bool {
	let mut s = asc(i);
	s.truncate(1);
	s.len() == 1 && s.chars().next() == Some((b(i)[0] & 0x7F) as char)
}
pub fn st_str_collect(i: I) -> bool {
	let x = b(i);
	let s: String = x.iter().map(|q| (q & 0x7F) as char).collect();
	let t: String = ["ab", "cd"].concat();
	let u = ["ab", "cd"].join("-");
	let w = String::from_iter(["a", "b"]);
	let z: String = vec![s.clone(), t.clone()].concat();
	s.len() == 3 && t == "abcd" && u == "ab-cd" && w == "ab" && z.len() == 7
}
pub fn st_str_repeat(i: I) -> bool {
	let s = asc(i);
	s.repeat(2).len() == 6
}
pub fn st_str_utf8(i: I) -> bool {
	let x = b(i).map(|q| q & 0x7F);
	let r = std::str::from_utf8(&x).map(|s| s.len());
	let o = String::from_utf8(x.to_vec()).map(|s| s.len());
	r == Ok(3) && o.is_ok()
}
pub fn st_str_lossy(i: I) -> bool {
	let x = b(i).map(|q| q & 0x7F);
	String::from_utf8_lossy(&x).len() == 3 && String::from_utf8_lossy(&x).into_owned().chars().rev().count() == 3
}
pub fn st_str_char_indices(i: I) -> bool {
	let s = asc(i);
	s.char_indices().map(|(k, _)| k).sum::<usize>() == 3
}
pub fn st_str_split(i: I) -> bool {
	let s = asc(i);
	s.split('-').count() >= 1 && s.split_once('-').is_some() == s.contains('-')
}
pub fn st_str_chars_misc(i: I) -> bool {
	let s = asc(i);
	s.chars().last() == Some((b(i)[2] & 0x7F) as char)
		&& s.chars().nth(1) == Some((b(i)[1] & 0x7F) as char)
		&& s.chars().all(|c| c.is_ascii())
		&& s.chars().position(|c| !c.is_ascii()).is_none()
		&& s.chars().skip(1).count() == 2
		&& s.chars().rev().next() == s.chars().last()
		&& s.chars().zip(s.chars()).all(|(p, q)| p == q)
		&& s.chars().filter(|c| c.is_ascii_digit()).count() <= 3
		&& s.chars().fold(0u32, |a, c| a + c as u32) <= 381
}
pub fn st_char(i: I) -> bool {
	let [p, ..] = b(i);
	let c = char::from(p);
	c as u32 == p as u32
		&& (p as char).is_ascii_digit() == (p >= b'0' && p <= b'9')
		&& p.is_ascii_uppercase() == c.is_ascii_uppercase()
		&& char::from_u32(p as u32).is_some()
		&& char::from_digit((p & 15) as u32, 16).is_some()
		&& c.to_digit(16).is_some() == p.is_ascii_hexdigit()
		&& p.is_ascii_alphabetic() == (p.to_ascii_lowercase() >= b'a' && p.to_ascii_lowercase() <= b'z')
		&& c.len_utf8() == if p < 128 { 1 } else { 2 }
		&& p.is_ascii_control() == (p < 32 || p == 127)
		&& c.is_ascii() == (p < 128)
		&& u8::try_from(c) == Ok(p)
		&& c.is_control() == (p < 32 || (127..160).contains(&p))
}
pub fn st_char_numeric(i: I) -> bool {
	let p = b(i)[0] & 0x7F;
	let c = p as char;
	c.is_alphabetic() == c.is_ascii_alphabetic() && c.is_whitespace() == (c.is_ascii_whitespace() || p == 11) && c.is_numeric() == c.is_ascii_digit() && c.is_alphanumeric() == c.is_ascii_alphanumeric()
}
pub fn st_format(i: I) -> bool {
	let [p, ..] = b(i);
	let s = format!("{p:02x}");
	let t = p.to_string();
	let _ = (s, t);
	true
}

// ---- winnow ------------------------------------------------------------------------
pub fn st_w_numbers(i: I) -> bool {
	let x = b(i);
	let mut p = *i;
	let Ok::<u16, E>(n) = binary::le_u16.parse_next(&mut p) else { return false };
	let mut q = *i;
	let Ok::<u16, E>(m) = binary::be_u16.parse_next(&mut q) else { return false };
	let mut r = *i;
	let Ok::<i8, E>(s) = binary::i8.parse_next(&mut r) else { return false };
	let mut t = *i;
	let Ok::<u32, E>(u) = binary::le_u24.parse_next(&mut t) else { return false };
	let big = binary::le_u32::<_, E>.parse_next(&mut *i).is_err();
	n == u16::from_le_bytes([x[0], x[1]]) && m == u16::from_be_bytes([x[0], x[1]]) && s == x[0] as i8 && u == u32::from_le_bytes([x[0], x[1], x[2], 0]) && big && p.len() == 1
}
pub fn st_w_tuple(i: I) -> bool {
	let x = b(i);
	let Ok::<_, E>((p, q, r)) = (binary::u8, binary::u8, binary::u8).parse_next(i) else { return false };
	[p, q, r] == x && i.is_empty()
}
pub fn st_w_take(i: I) -> bool {
	let x = b(i);
	let Ok::<&[u8], E>(p) = take(2usize).parse_next(i) else { return false };
	p == &x[..2] && i.len() == 1 && rest::<_, E>.parse_next(i).map(|r: &[u8]| r.len()) == Ok(1)
}
pub fn st_w_alt(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = alt((one_of(1u8), one_of(2..=9u8), any.verify(|q: &u8| *q > 100))).parse_next(i);
	r.is_ok() == ((x[0] >= 1 && x[0] <= 9) || x[0] > 100)
}
pub fn st_w_repeat(i: I) -> bool {
	let x = b(i);
	let r: Result<Vec<u8>, E> = repeat(0.., binary::u8.verify(|q| *q != 0)).parse_next(i);
	let Ok(v) = r else { return false };
	v.len() + i.len() == 3 && (x[0] == 0) == v.is_empty()
}
pub fn st_w_repeat_n(i: I) -> bool {
	let x = b(i);
	let r: Result<Vec<u8>, E> = repeat(2, binary::u8).parse_next(i);
	let Ok(v) = r else { return false };
	v == x[..2] && i.len() == 1
}
pub fn st_w_repeat_fold(i: I) -> bool {
	let x = b(i);
	let r: Result<u32, E> = repeat(1..=3, binary::u8).fold(|| 0u32, |a, q: u8| a + q as u32).parse_next(i);
	r == Ok(x[0] as u32 + x[1] as u32 + x[2] as u32)
}
pub fn st_w_repeat_till(i: I) -> bool {
	let x = b(i);
	let r: Result<(Vec<u8>, u8), E> = repeat_till(0.., binary::u8, 7u8).parse_next(i);
	r.is_ok() == x.contains(&7)
}
pub fn st_w_literal(i: I) -> bool {
	let x = b(i);
	let r: Result<&[u8], E> = literal([1u8, 2]).parse_next(i);
	let s: Result<u8, E> = 9u8.parse_next(i);
	r.is_ok() == (x[0] == 1 && x[1] == 2) && s.is_ok() == if r.is_ok() { x[2] == 9 } else { x[0] == 9 }
}
pub fn st_w_combin(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = delimited(0x10u8, any, 0x16u8).parse_next(i);
	r.is_ok() == (x[0] == 0x10 && x[2] == 0x16)
}
pub fn st_w_combin2(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = preceded(0x10u8, terminated(any, peek(any))).parse_next(i);
	let o: Result<Option<u8>, E> = opt(5u8).parse_next(i);
	r.is_ok() == (x[0] == 0x10) && o.is_ok()
}
pub fn st_w_maps(i: I) -> bool {
	let x = b(i);
	let r: Result<u32, E> = binary::u8.map(|q: u8| q as u32 + 1).parse_next(i);
	let s: Result<u8, E> = binary::u8.verify_map(|q: u8| q.checked_sub(1)).parse_next(i);
	let t: Result<i8, E> = binary::u8.try_map(i8::try_from).parse_next(i);
	r == Ok(x[0] as u32 + 1) && s.is_ok() == (x[1] != 0) && t.is_ok() == if s.is_ok() { x[2] < 128 } else { x[1] < 128 }
}
pub fn st_w_length(i: I) -> bool {
	let x = b(i);
	let r: Result<&[u8], E> = binary::length_take(binary::u8).parse_next(i);
	r.is_ok() == (x[0] <= 2) && r.is_ok_and(|z| z.len() == x[0] as usize) == (x[0] <= 2)
}
pub fn st_w_length_repeat(i: I) -> bool {
	let x = b(i);
	let r: Result<Vec<u8>, E> = binary::length_repeat(binary::u8.verify(|q| *q < 9), binary::u8).parse_next(i);
	r.is_ok() == (x[0] <= 2)
}
pub fn st_w_length_and_then(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = binary::length_and_then(binary::u8, (binary::u8, eof).map(|z: (u8, &[u8])| z.0)).parse_next(i);
	r.is_ok() == (x[0] == 1)
}
pub fn st_w_flat_map(i: I) -> bool {
	let x = b(i);
	let r: Result<&[u8], E> = binary::u8.flat_map(|n: u8| take(n as usize)).parse_next(i);
	r.is_ok() == (x[0] <= 2)
}
pub fn st_w_taken(i: I) -> bool {
	let x = b(i);
	let r: Result<&[u8], E> = (any, any).take().parse_next(i);
	r.is_ok_and(|z| z == &x[..2])
}
pub fn st_w_with_taken(i: I) -> bool {
	let x = b(i);
	let r: Result<(u8, &[u8]), E> = any.with_taken().parse_next(i);
	r.is_ok_and(|z| z.0 == x[0] && z.1.len() == 1)
}
pub fn st_w_take_while(i: I) -> bool {
	let x = b(i);
	let r: Result<&[u8], E> = take_while(0.., |q: u8| q != 0).parse_next(i);
	r.is_ok_and(|z| (z.len() == 0) == (x[0] == 0))
}
pub fn st_w_bits(i: I) -> bool {
	let x = b(i);
	let r: Result<(u8, u8), E> = binary::bits::bits::<_, _, ErrMode<ContextError>, _, _>((binary::bits::take(3usize), binary::bits::take(5usize))).parse_next(i);
	r == Ok((x[0] >> 5, x[0] & 31))
}
pub fn st_w_bits2(i: I) -> bool {
	let x = b(i);
	let r: Result<(bool, u8), E> = binary::bits::bits::<_, _, ErrMode<ContextError>, _, _>((binary::bits::bool, binary::bits::take(7usize))).parse_next(i);
	r == Ok((x[0] & 128 != 0, x[0] & 127))
}
pub fn st_w_bits_pattern(i: I) -> bool {
	let x = b(i);
	let r: Result<(u8, u8), E> = binary::bits::bits::<_, _, ErrMode<ContextError>, _, _>((binary::bits::pattern(1u8, 1usize), binary::bits::take(7usize))).parse_next(i);
	r.is_ok() == (x[0] & 128 != 0)
}
pub fn st_w_stream(i: I) -> bool {
	let x = b(i);
	let c = i.checkpoint();
	let Ok::<u8, E>(p) = any.parse_next(i) else { return false };
	let n = i.eof_offset();
	i.reset(&c);
	p == x[0] && n == 2 && i.eof_offset() == 3 && i.peek_token() == Some(x[0]) && i.next_token() == Some(x[0]) && i.next_slice(2).len() == 2
}
pub fn st_w_cut(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = alt((preceded(1u8, cut_err(2u8)), any)).parse_next(i);
	r.is_err() == (x[0] == 1 && x[1] != 2)
}
pub fn st_w_backtrack(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = alt((backtrack_err(preceded(1u8, cut_err(2u8))), any)).parse_next(i);
	let _ = x;
	r.is_ok()
}
pub fn st_w_not_eof(i: I) -> bool {
	let x = b(i);
	let r: Result<(), E> = not(1u8).parse_next(i);
	let e: Result<&[u8], E> = eof.parse_next(i);
	r.is_ok() == (x[0] != 1) && e.is_err()
}
pub fn st_w_cond(i: I) -> bool {
	let x = b(i);
	let r: Result<Option<u8>, E> = cond(x[0] > 3, any).parse_next(i);
	r.is_ok_and(|z| z.is_some() == (x[0] > 3))
}
pub fn st_w_dispatch(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = dispatch! {any; 1u8 => any, 2 => fail::<_, u8, _>, _ => empty.value(0u8)}.parse_next(i);
	r.is_err() == (x[0] == 2)
}
pub fn st_w_seq(i: I) -> bool {
	struct S {
		p: u8,
		q: u8,
	}
	let x = b(i);
	let r: Result<S, E> = winnow::combinator::seq! {S { p: any, _: any, q: any }}.parse_next(i);
	r.is_ok_and(|s| s.p == x[0] && s.q == x[2])
}
pub fn st_w_context(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = one_of(3u8).context(StrContext::Label("three")).parse_next(i);
	r.is_ok() == (x[0] == 3)
}
pub fn st_w_parse(i: I) -> bool {
	let x = b(i);
	let r = (any::<_, E>, any, one_of(9u8)).parse(*i);
	r.is_ok() == (x[2] == 9)
}
pub fn st_w_value_void(i: I) -> bool {
	let r: Result<u8, E> = any.value(7u8).parse_next(i);
	let s: Result<(), E> = any.void().parse_next(i);
	let d: Result<u8, E> = any.default_value().parse_next(i);
	r == Ok(7) && s.is_ok() && d == Ok(0)
}
pub fn st_w_and_then(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = take(2usize).and_then(|z: &mut &[u8]| any.parse_next(z)).parse_next(i);
	r == Ok(x[0]) && i.len() == 1
}
pub fn st_w_separated(i: I) -> bool {
	let x = b(i);
	let r: Result<Vec<u8>, E> = separated(1.., any, 0u8).parse_next(i);
	r.is_ok_and(|v| (v.len() == 2) == (x[1] == 0))
}
pub fn st_w_fail_kind(i: I) -> bool {
	let r: Result<u8, E> = Err(ErrMode::from_input(i));
	r.is_err()
}
pub fn st_w_permutation(i: I) -> bool {
	let x = b(i);
	let r: Result<u8, E> = trace("x", any).parse_next(i);
	r == Ok(x[0])
}
pub fn st_w_deref(i: I) -> bool {
	let x = b(i);
	let s: &[u8] = i.as_ref();
	chk(s) == chk(&x) && i.iter().count() == 3 && i.first() == Some(&x[0]) && i.last() == Some(&x[2]) && i[1..].len() == 2
}
pub fn st_w_bytes_new(i: I) -> bool {
	let x = b(i);
	let y = Bytes::new(&x[..2]);
	y.len() == 2 && (*i).to_vec().len() == 3 && Vec::<u8>::from(i.as_ref() as &[u8]).len() == 3
}
pub fn st_enc(i: I) -> bool {
	let x = b(i).map(|q| q & 0x7F);
	let (s, e) = encoding_rs::WINDOWS_1252.decode_without_bom_handling(&x);
	let t = encoding_rs::mem::decode_latin1(&x);
	!e && s.len() == 3 && t.len() == 3
}
pub fn st_latin1(i: I) -> bool {
	let x = b(i);
	let s: String = x.iter().map(|&q| q as char).collect();
	let t: String = x.iter().copied().map(char::from).rev().collect();
	s.chars().count() == 3 && t.chars().next() == Some(x[2] as char)
}
pub fn st_map(i: I) -> bool {
	let [p, q, _] = b(i);
	const T: [(u8, u16); 3] = [(1, 10), (2, 20), (3, 30)];
	static U: &[(u8, &str)] = &[(1, "a"), (2, "b")];
	let f = T.iter().find(|z| z.0 == p).map(|z| z.1);
	let g = U.iter().find(|(k, _)| *k == q).map(|z| z.1);
	f == (if p >= 1 && p <= 3 { Some(p as u16 * 10) } else { None }) && g.is_some() == (q == 1 || q == 2)
}
pub fn st_table(i: I) -> bool {
	const fn make() -> [u8; 256] {
		let mut t = [0u8; 256];
		let mut k = 0;
		while k < 256 {
			t[k] = (k as u8).wrapping_mul(2);
			k += 1;
		}
		t
	}
	static T: [u8; 256] = make();
	let [p, ..] = b(i);
	T[p as usize] == p.wrapping_mul(2)
}
pub fn st_dyn(i: I) -> bool {
	let [p, q, _] = b(i);
	let f: Box<dyn Fn(u8) -> u8> = if p > 9 { Box::new(|z| z ^ 1) } else { Box::new(|z| z ^ 2) };
	f(q) != q
}
pub fn st_fnptr(i: I) -> bool {
	let [p, q, _] = b(i);
	fn g(z: u8) -> u8 {
		z ^ 2
	}
	let f: fn(u8) -> u8 = if p > 9 { |z| z ^ 1 } else { g };
	f(q) != q
}
pub fn st_labeled(i: I) -> bool {
	let x = b(i);
	let r = 'o: {
		for (k, q) in x.iter().enumerate() {
			if *q == 5 {
				break 'o Some(k);
			}
		}
		None
	};
	r.is_some() == x.contains(&5)
}
pub fn st_slice_pat(i: I) -> bool {
	let x = b(i);
	match &x[..] {
		[] => false,
		[p, .., q] if p == q => x[0] == x[2],
		[1, rest @ ..] => rest.len() == 2,
		[p, ..] => *p == x[0],
	}
}
pub fn st_u128(i: I) -> bool {
	let x = b(i);
	let n = x.iter().rev().fold(0u128, |a, q| a << 8 | *q as u128);
	n as u32 == u32::from_le_bytes([x[0], x[1], x[2], 0]) && i128::from(x[0]) >= 0
}
pub fn st_slice_to_array_ref(i: I) -> bool {
	let x = b(i);
	let y: &[u8; 2] = x[..2].try_into().unwrap();
	y[1] == x[1]
}
pub fn st_bool_ops(i: I) -> bool {
	let [p, q, _] = b(i);
	let (f, g) = (p & 1 == 1, q & 1 == 1);
	(f ^ g) == (f != g) && (f & g) == (f && g) && (f | g) == (f || g) && !(f && !f)
}
pub fn st_cow(i: I) -> bool {
	use std::borrow::Cow;
	let x = b(i);
	let c: Cow<[u8]> = if x[0] > 3 { Cow::Borrowed(&x[..]) } else { Cow::Owned(vec![x[0]]) };
	c.len() == if x[0] > 3 { 3 } else { 1 } && c.into_owned()[0] == x[0]
}
pub fn st_rc(i: I) -> bool {
	use std::cell::Cell;
	let x = b(i);
	let c = Cell::new(x[0]);
	c.set(c.get().wrapping_add(1));
	c.get() == x[0].wrapping_add(1)
}
pub fn st_refcell(i: I) -> bool {
	use std::cell::RefCell;
	let x = b(i);
	let c = RefCell::new(x[0]);
	*c.borrow_mut() ^= 1;
	let r = *c.borrow();
	r == x[0] ^ 1
}

// ---- sums that are masked in a wider type
pub fn st_masked_sum(i: I) -> bool {
    let b: [u8; 3] = [i[0], i[1], i[2]];
    let mut t = 0u32;
    for x in b {
        t = (t + u32::from(x)) & 0xFF;
    }
    t as u8 == b[0].wrapping_add(b[1]).wrapping_add(b[2])
}
pub fn st_mod_sum(i: I) -> bool {
    let b: [u8; 3] = [i[0], i[1], i[2]];
    let t: u16 = b.iter().map(|x| *x as u16).sum::<u16>() % 256;
    t == u16::from(b.iter().fold(0u8, |a, x| a.wrapping_add(*x)))
}
pub fn st_wrapped_wide(i: I) -> bool {
    let b: [u8; 3] = [i[0], i[1], i[2]];
    let t = u32::from(b[0].wrapping_add(b[1]).wrapping_add(b[2]));
    t < 256 && (t + 5) & 0xFF == u32::from(b[0].wrapping_add(b[1]).wrapping_add(b[2]).wrapping_add(5))
}
pub fn st_masked_choice(i: I) -> bool {
    let b: [u8; 3] = [i[0], i[1], i[2]];
    let a = (u32::from(b[0]) * 3 + u32::from(b[1]) * 5 + u32::from(b[2])) & 0xFF;
    let c = if b[0] > 9 { a } else { 7 };
    let d = (c + 1) % 256;
    if b[0] > 9 {
        d as u8 == b[0].wrapping_mul(3).wrapping_add(b[1].wrapping_mul(5)).wrapping_add(b[2]).wrapping_add(1)
    } else {
        d == 8
    }
}
pub fn st_bytes_all(i: I) -> bool {
	let [p, q, r] = b(i);
	let x = String::from_utf8(vec![p & 0x7F, q & 0x7F, r & 0x7F]).ok().filter(|s| s.bytes().all(|c| c.is_ascii_uppercase())).map(|s| (s, p));
	let up = |c: u8| (0x41..=0x5A).contains(&(c & 0x7F));
	x.is_some() == (up(p) && up(q) && up(r))
}
pub fn st_bytes_more(i: I) -> bool {
	let [p, q, _] = b(i);
	let s = String::from_utf8(vec![p & 0x7F, q & 0x7F]).unwrap();
	let n = s.bytes().filter(|c| *c == 5).count();
	n == usize::from(p & 0x7F == 5) + usize::from(q & 0x7F == 5) && s.bytes().len() == 2 && s.bytes().position(|c| c == p & 0x7F) == Some(0) && s.bytes().nth(1) == s.bytes().last() && s.bytes().rev().next() == Some(q & 0x7F)
}
pub fn st_fn_table(i: I) -> bool {
	const T: [fn() -> Option<u8>; 4] = [|| Some(1), || None, || Some(7), || Some(9)];
	const U: &[(u8, fn(u8) -> u8)] = &[(3, |x| x & 1), (5, |x| x >> 4)];
	let [p, q, _] = b(i);
	let r = T[usize::from(p & 3)]();
	let f = U.iter().find(|x| x.0 == q).map(|x| x.1(p));
	r == match p & 3 {
		0 => Some(1),
		1 => None,
		2 => Some(7),
		_ => Some(9),
	} && f == if q == 3 { Some(p % 2) } else if q == 5 { Some(p / 16) } else { None }
}
