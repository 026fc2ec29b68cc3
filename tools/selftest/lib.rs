// Every t_* returns true when run; tools/selftest/run.py asks the interpreter.
use std::collections::*;
use std::rc::Rc;
pub fn t_trim() -> bool { " ab ".trim() == "ab" && " ab".trim_start() == "ab" && "ab ".trim_end() == "ab" }
pub fn t_trim_matches() -> bool { "0.25.".trim_end_matches('.') == "0.25" && "xxab".trim_start_matches("x") == "ab" && "xax".trim_matches('x') == "a" }
pub fn t_case() -> bool { "aB".to_lowercase() == "ab" && "aB".to_uppercase() == "AB" && "aB".to_ascii_lowercase() == "ab" && "ab".to_ascii_uppercase() == "AB" }
pub fn t_eqic() -> bool { "aB".eq_ignore_ascii_case("Ab") && !"a".eq_ignore_ascii_case("b") }
pub fn t_find() -> bool { "abc".find('b') == Some(1) && "abc".find("x").is_none() && "abcb".rfind('b') == Some(3) && "abc".find(|c: char| c == 'c') == Some(2) }
pub fn t_split() -> bool { let v: Vec<&str> = "a b c".split(' ').collect(); v.len() == 3 && v[1] == "b" }
pub fn t_split_ws() -> bool { let v: Vec<&str> = " a  b\nc".split_whitespace().collect(); v == vec!["a", "b", "c"] }
pub fn t_split_once() -> bool { "a=b".split_once('=') == Some(("a", "b")) && "ab".split_once("=").is_none() && "a=b=c".rsplit_once('=') == Some(("a=b", "c")) }
pub fn t_splitn() -> bool { let v: Vec<&str> = "a.b.c".splitn(2, '.').collect(); v == ["a", "b.c"] }
pub fn t_rsplit() -> bool { "a.b.c".rsplit('.').next() == Some("c") && "a/b".split('/').last() == Some("b") }
pub fn t_lines() -> bool { "a\nb\n".lines().count() == 2 && "a\r\nb".lines().next() == Some("a") }
pub fn t_replace() -> bool { "a-b-c".replace('-', "_") == "a_b_c" && "aab".replacen("a", "x", 1) == "xab" }
pub fn t_repeat() -> bool { "ab".repeat(2) == "abab" }
pub fn t_prefix() -> bool { "abc".strip_prefix("a") == Some("bc") && "abc".strip_suffix('c') == Some("ab") && "abc".strip_prefix('x').is_none() }
pub fn t_starts() -> bool { "abc".starts_with('a') && "abc".ends_with("bc") && "abc".contains('b') && !"abc".contains("x") }
pub fn t_starts_fn() -> bool { "1bc".starts_with(|c: char| c.is_ascii_digit()) && "abc".contains(char::is_alphabetic) && "a1".ends_with(char::is_numeric) }
pub fn t_pat_arr() -> bool { "a?b".contains(['?', '!']) && "a?b".contains(&['?', '!'][..]) && "a b".split([' ', ',']).count() == 2 }
pub fn t_chars() -> bool { let mut c = "abc".chars(); c.next() == Some('a') && c.next() == Some('b') && c.as_str() == "c" }
pub fn t_chars_rev() -> bool { "abc".chars().rev().collect::<String>() == "cba" && "abc".chars().nth(1) == Some('b') && "abc".chars().last() == Some('c') && "abc".chars().count() == 3 }
pub fn t_chars_all() -> bool { "123".chars().all(|c| c.is_ascii_digit()) && "1a3".chars().any(char::is_alphabetic) }
pub fn t_char_class() -> bool { 'a'.is_alphabetic() && 'a'.is_ascii_alphabetic() && '1'.is_numeric() && '1'.is_ascii_digit() && ' '.is_whitespace() && 'a'.is_alphanumeric() && 'A'.is_uppercase() && 'a'.is_lowercase() && '\n'.is_control() && '!'.is_ascii_punctuation() && 'f'.is_ascii_hexdigit() && '7'.to_digit(10) == Some(7) && 'a'.is_ascii() && 'a'.len_utf8() == 1 && '7'.is_digit(10) }
pub fn t_char_conv() -> bool { 'a' as u32 == 97 && 97u8 as char == 'a' && 'a'.to_ascii_uppercase() == 'A' && char::from(98u8) == 'b' && 'A'.to_ascii_lowercase() == 'a' && 'a'.to_string() == "a" }
pub fn t_u8_class() -> bool { b'a'.is_ascii_alphabetic() && b'1'.is_ascii_digit() && b' '.is_ascii_whitespace() && b'a'.is_ascii_lowercase() && b'A'.to_ascii_lowercase() == b'a' && b'z'.is_ascii_alphanumeric() }
pub fn t_str_idx() -> bool { let s = "abcdef"; &s[1..3] == "bc" && &s[..2] == "ab" && &s[4..] == "ef" && s.get(0..1) == Some("a") && s.get(7..).is_none() && &s[1..=2] == "bc" }
pub fn t_str_cmp() -> bool { "a" < "b" && "a".cmp("b") == std::cmp::Ordering::Less && "b".to_string() > "a".to_string() && "a".max("b") == "b" }
pub fn t_str_len() -> bool { "abc".len() == 3 && !"a".is_empty() && "".is_empty() && "abc".as_bytes()[1] == b'b' && "abc".bytes().nth(2) == Some(b'c') }
pub fn t_char_indices() -> bool { "ab".char_indices().find(|(_, c)| *c == 'b').map(|(i, _)| i) == Some(1) }
pub fn t_string_ops() -> bool { let mut s = String::from("ab"); s.insert(0, 'x'); s.insert_str(1, "yz"); s.push('!'); s.push_str("?"); s.pop() == Some('?') && s == "xyzab!" && s.remove(0) == 'x' && { s.truncate(2); s == "yz" } }
pub fn t_string_more() -> bool { let mut s = "abc".to_string(); s.retain(|c| c != 'b'); s += "d"; s == "acd" && s.clone() + "e" == "acde" && { s.clear(); s.is_empty() } }
pub fn t_string_split_at() -> bool { "abcd".split_at(1) == ("a", "bcd") && "abcd".to_string().split_off(2) == "cd" && "abcd".is_char_boundary(2) }
pub fn t_format() -> bool { format!("{}-{:?}-{}", 1, "a", 'c') == "1-\"a\"-c" && format!("{:>3}|{:<3}|{:03}", "a", "b", 7) == "  a|b  |007" && format!("{0}{1}{0}", "a", 1) == "a1a" }
pub fn t_format_num() -> bool { format!("{:?} {:?}", 3, vec![1, 2]) == "3 [1, 2]" && format!("{:?}", Some("a")) == "Some(\"a\")" && format!("{}", true) == "true" }
pub fn t_concat() -> bool { ["a", "b"].concat() == "ab" && vec!["a", "b"].join(", ") == "a, b" && ["a".to_string(), "b".to_string()].join("-") == "a-b" }
pub fn t_parse() -> bool { "12".parse::<i64>() == Ok(12) && "x".parse::<i64>().is_err() && "1.5".parse::<f64>().unwrap() == 1.5 && "7".parse::<u32>().unwrap_or(0) == 7 }
pub fn t_from_utf8() -> bool { std::str::from_utf8(b"ab").unwrap() == "ab" && String::from_utf8(vec![b'a']).unwrap() == "a" && String::from_utf8_lossy(b"ab") == "ab" }
pub fn t_str_from_iter() -> bool { ['a', 'b'].iter().collect::<String>() == "ab" && vec!["x", "y"].into_iter().collect::<String>() == "xy" && String::from_iter(['a', 'b']) == "ab" }
pub fn t_matches() -> bool { "abab".matches("a").count() == 2 && "abab".match_indices("b").map(|(i, _)| i).collect::<Vec<_>>() == vec![1, 3] }
pub fn t_cow() -> bool { let c: std::borrow::Cow<str> = "a".into(); c.len() == 1 && c.into_owned() == "a" }
// vectors
pub fn t_vec_ops() -> bool { let mut v = vec![1, 2, 3]; v.insert(1, 9); v.remove(0); v.swap(0, 1); v == vec![2, 9, 3] && v.swap_remove(0) == 2 && v == [3, 9] }
pub fn t_vec_dedup() -> bool { let mut v = vec![1, 1, 2, 2, 1]; v.dedup(); v == [1, 2, 1] }
pub fn t_vec_dedup_by() -> bool { let mut v = vec![(1, 'a'), (1, 'b'), (2, 'c')]; v.dedup_by_key(|x| x.0); v.len() == 2 && v[0].1 == 'a' && { v.dedup_by(|a, b| a.0 > b.0); v.len() == 1 } }
pub fn t_vec_retain() -> bool { let mut v = vec![1, 2, 3, 4]; v.retain(|x| x % 2 == 0); v == [2, 4] }
pub fn t_vec_split() -> bool { let mut v = vec![1, 2, 3, 4]; let w = v.split_off(2); v == [1, 2] && w == [3, 4] && w.split_first() == Some((&3, &[4][..])) && w.split_last().unwrap().0 == &4 && w.split_at(1).1 == [4] }
pub fn t_vec_trunc() -> bool { let mut v = vec![1, 2, 3]; v.truncate(1); v.resize(3, 0); v.extend([7]); v.extend_from_slice(&[8]); v == [1, 0, 0, 7, 8] }
pub fn t_vec_drain() -> bool { let mut v = vec![1, 2, 3]; let w: Vec<i32> = v.drain(1..).collect(); v == [1] && w == [2, 3] && { v.clear(); v.is_empty() } }
pub fn t_vec_first() -> bool { let v = vec![1, 2]; v.first() == Some(&1) && v.last() == Some(&2) && v.get(1) == Some(&2) && v.get(5).is_none() && v.iter().rev().next() == Some(&2) }
pub fn t_vec_first_mut() -> bool { let mut v = vec![1, 2]; *v.last_mut().unwrap() = 5; if let Some(x) = v.first_mut() { *x += 1; } v[1] += 1; v == [2, 6] }
pub fn t_vec_iter_mut() -> bool { let mut v = vec![1, 2]; for x in v.iter_mut() { *x += 1; } for x in &mut v { *x *= 2; } v == [4, 6] }
pub fn t_vec_contains() -> bool { vec![1, 2].contains(&2) && !["a"].contains(&"b") && [1, 2].starts_with(&[1]) && [1, 2].ends_with(&[2]) }
pub fn t_vec_sort() -> bool { let mut v = vec![3, 1, 2]; v.sort(); v == [1, 2, 3] && { v.sort_by(|a, b| b.cmp(a)); v == [3, 2, 1] } && { v.sort_by_key(|x| *x); v == [1, 2, 3] } && { v.reverse(); v == [3, 2, 1] } && { v.sort_unstable(); v[0] == 1 } }
pub fn t_vec_search() -> bool { let v = [1, 3, 5]; v.binary_search(&3) == Ok(1) && v.binary_search(&4) == Err(2) && v.iter().position(|x| *x == 5) == Some(2) && v.iter().rposition(|x| *x == 1) == Some(0) }
pub fn t_windows() -> bool { [1, 2, 3].windows(2).all(|w| w[0] < w[1]) && [1, 2, 3].chunks(2).count() == 2 && [1, 2, 3].chunks(2).last().unwrap().len() == 1 && [1, 0, 2].split(|x| *x == 0).count() == 2 }
pub fn t_concat_vec() -> bool { [vec![1], vec![2, 3]].concat() == [1, 2, 3] && vec![vec![1], vec![2]].into_iter().flatten().collect::<Vec<_>>() == [1, 2] }
pub fn t_vec_macro() -> bool { let v = vec![0; 3]; v.len() == 3 && v[2] == 0 && [1; 2].iter().sum::<i32>() == 2 }
pub fn t_slice_pat() -> bool { let v = vec![1, 2, 3]; let a = match v.as_slice() { [a, .., b] => *a == 1 && *b == 3, _ => false }; a && matches!(&v[..], [_, rest @ ..] if rest.len() == 2) }
pub fn t_to_vec() -> bool { let a = [1, 2]; a.to_vec() == vec![1, 2] && a[..1].to_owned() == vec![1] && a.iter().copied().collect::<Vec<i32>>() == a }
pub fn t_deque() -> bool { let mut d = VecDeque::new(); d.push_back(1); d.push_back(2); d.push_front(0); d.pop_front() == Some(0) && d.pop_back() == Some(2) && d.len() == 1 && d.front() == Some(&1) && d.back() == Some(&1) && d.contains(&1) && d[0] == 1 && !d.is_empty() && d.iter().count() == 1 }
pub fn t_deque_conv() -> bool { let d: VecDeque<i32> = vec![1, 2].into(); let v: Vec<i32> = d.into_iter().collect(); v == [1, 2] }
// iterators
pub fn t_it_sum() -> bool { [1, 2, 3].iter().sum::<i32>() == 6 && (1..4).product::<i32>() == 6 && [1, 2].iter().map(|x| x * 2).sum::<i32>() == 6 }
pub fn t_it_minmax() -> bool { [2, 1, 3].iter().max() == Some(&3) && [2, 1].iter().min() == Some(&1) && ["aa", "b"].iter().max_by_key(|s| s.len()) == Some(&"aa") && ["aa", "b"].iter().min_by_key(|s| s.len()) == Some(&"b") && [1, 2].iter().max_by(|a, b| a.cmp(b)) == Some(&2) && Vec::<i32>::new().iter().max().is_none() }
pub fn t_it_fold() -> bool { (1..=3).fold(0, |a, b| a + b) == 6 && [1, 2].iter().try_fold(0i32, |a, b| a.checked_add(*b)) == Some(3) && [1, 2, 3].into_iter().reduce(|a, b| a + b) == Some(6) }
pub fn t_it_step() -> bool { (0..10).step_by(5).collect::<Vec<_>>() == [0, 5] && (0..3).rev().collect::<Vec<_>>() == [2, 1, 0] && [1, 2, 3].iter().skip(1).take(1).count() == 1 }
pub fn t_it_part() -> bool { let (a, b): (Vec<i32>, Vec<i32>) = [1, 2, 3].into_iter().partition(|x| x % 2 == 0); a == [2] && b == [1, 3] }
pub fn t_it_unzip() -> bool { let (a, b): (Vec<i32>, Vec<char>) = vec![(1, 'a'), (2, 'b')].into_iter().unzip(); a == [1, 2] && b == ['a', 'b'] }
pub fn t_it_scan() -> bool { [1, 2, 3].iter().scan(0, |s, x| { *s += x; Some(*s) }).collect::<Vec<_>>() == [1, 3, 6] && [1, 2, 9, 1].iter().map_while(|x| if *x < 5 { Some(*x) } else { None }).count() == 2 }
pub fn t_it_zip() -> bool { [1, 2].iter().zip(["a", "b"].iter()).all(|(a, b)| *a == 1 && *b == "a" || *a == 2) && std::iter::zip([1], [2]).next() == Some((1, 2)) }
pub fn t_it_chain() -> bool { [1].iter().chain([2].iter()).chain(std::iter::once(&3)).cloned().collect::<Vec<i32>>() == [1, 2, 3] }
pub fn t_it_peek() -> bool { let mut p = [1, 2].iter().peekable(); p.peek() == Some(&&1) && p.next_if(|x| **x == 1) == Some(&1) && p.next_if_eq(&&5).is_none() && p.next() == Some(&2) && p.peek().is_none() }
pub fn t_it_cmp() -> bool { [1, 2].iter().eq([1, 2].iter()) && [1].iter().lt([2].iter()) && ![1].iter().ne([1].iter()) && [1, 2] == [1, 2] && vec![1, 2] < vec![1, 3] }
pub fn t_it_iter() -> bool { std::iter::repeat(1).take(3).count() == 3 && std::iter::successors(Some(1), |x| if *x < 4 { Some(x * 2) } else { None }).last() == Some(4) && std::iter::from_fn(|| None::<i32>).next().is_none() && std::iter::repeat_n('a', 2).collect::<String>() == "aa" }
pub fn t_it_cycle() -> bool { [1, 2].iter().cycle().take(3).cloned().collect::<Vec<i32>>() == [1, 2, 1] }
pub fn t_it_flatmap() -> bool { [1, 2].iter().flat_map(|x| vec![*x; 2]).collect::<Vec<_>>() == [1, 1, 2, 2] && [Some(1), None].iter().flatten().count() == 1 && [Some(1), None].into_iter().filter_map(|x| x).count() == 1 }
pub fn t_it_res() -> bool { ["1", "2"].iter().map(|x| x.parse::<i32>()).collect::<Result<Vec<_>, _>>().unwrap().len() == 2 && [Some(1), None].into_iter().collect::<Option<Vec<_>>>().is_none() && [Ok(1), Err("x")].into_iter().collect::<Result<Vec<i32>, &str>>() == Err("x") }
pub fn t_it_sumres() -> bool { [Some(1), Some(2)].into_iter().sum::<Option<i32>>() == Some(3) }
pub fn t_it_back() -> bool { let mut i = [1, 2, 3].iter(); i.next_back() == Some(&3) && i.next() == Some(&1) && i.len() == 1 && [1, 2].iter().rfind(|x| **x < 2) == Some(&1) && [1, 2].iter().rfold(0, |a, b| a * 10 + b) == 21 }
pub fn t_it_nth() -> bool { let mut i = (0..5).into_iter(); i.nth(2) == Some(2) && i.next() == Some(3) && [1, 2, 3].iter().nth_back(0) == Some(&3) && i.size_hint().0 == 1 }
pub fn t_it_is_sorted() -> bool { [1, 2, 3].is_sorted() && ![2, 1].iter().is_sorted() && [1, 2].iter().is_sorted_by_key(|x| *x) }
pub fn t_it_enum() -> bool { ["a", "b"].iter().enumerate().map(|(i, s)| format!("{}{}", i, s)).collect::<Vec<_>>().join(" ") == "0a 1b" }
pub fn t_it_inspect() -> bool { let mut n = 0; [1, 2].iter().inspect(|_| n += 1).for_each(|_| {}); n == 2 }
pub fn t_it_group() -> bool { [1, 1, 2].chunk_by(|a, b| a == b).count() == 2 }
pub fn t_for_ranges() -> bool { let mut s = 0; for i in 0..3 { for j in (i..=3).rev() { s += j; } } s == 6 + 6 + 5 }
pub fn t_loop_labels() -> bool { let mut n = 0; 'a: loop { loop { n += 1; if n > 3 { break 'a; } if n == 2 { continue 'a; } } } n == 4 }
pub fn t_while_let() -> bool { let mut v = vec![1, 2]; let mut s = 0; while let Some(x) = v.pop() { s = s * 10 + x; } s == 21 }
pub fn t_break_val() -> bool { let mut i = 0; let r = loop { i += 1; if i == 3 { break i * 2; } }; r == 6 }
// options
pub fn t_opt() -> bool { Some(1).map(|x| x + 1) == Some(2) && None.unwrap_or(3) == 3 && Some(1).and_then(|x| if x > 0 { Some(x) } else { None }).is_some() && Some(1).xor(None) == Some(1) && Some(2).filter(|x| *x > 3).is_none() && None.or(Some(1)) == Some(1) && Some(1).or_else(|| None) == Some(1) }
pub fn t_opt2() -> bool { Some(1).ok_or("x") == Ok(1) && None::<i32>.ok_or_else(|| "x") == Err("x") && Some(1).zip(Some('a')) == Some((1, 'a')) && Some(Some(1)).flatten() == Some(1) && Some(3).is_some_and(|x| x > 2) && None::<i32>.is_none_or(|x| x > 2) && Some(1).map_or(0, |x| x + 1) == 2 && None::<i32>.map_or_else(|| 7, |x| x) == 7 }
pub fn t_opt3() -> bool { let mut o = None; *o.get_or_insert(1) += 1; let a = o.take(); a == Some(2) && o.is_none() && { o = Some(5); o.replace(6) == Some(5) } && o.as_ref() == Some(&6) && { if let Some(x) = o.as_mut() { *x = 9; } o == Some(9) } && o.insert(3) == &3 && o.iter().count() == 1 && { let r = o.get_or_insert_with(|| 8); *r == 3 } }
pub fn t_opt4() -> bool { Some("a").unwrap_or_default() == "a" && None::<i32>.unwrap_or_default() == 0 && Some(&1).copied() == Some(1) && Some(&1).cloned() == Some(1) && Some("a".to_string()).as_deref() == Some("a") && Some(Ok::<i32, ()>(1)).transpose() == Ok(Some(1)) && Some((1, 2)).unzip() == (Some(1), Some(2)) && Some(1).into_iter().chain(None).count() == 1 }
pub fn t_opt5() -> bool { let mut o = Some(1); o.take_if(|x| *x == 1) == Some(1) && o.is_none() && Some(1) > None && Some(1) < Some(2) && Some(1).and(Some('x')) == Some('x') && Some(4).inspect(|_| {}).is_some() && o != Some(3) && Some(1) == Some(1) }
pub fn t_opt_q() -> bool { fn f(a: Option<i32>) -> Option<i32> { let x = a?; Some(x + 1) } f(Some(1)) == Some(2) && f(None).is_none() }
pub fn t_res() -> bool { let r: Result<i32, String> = Ok(1); r.is_ok() && r.as_ref().map(|x| x + 1) == Ok(2) && r.clone().ok() == Some(1) && r.clone().err().is_none() && r.clone().unwrap_or(0) == 1 && r.clone().and_then(|x| Err::<i32, String>(x.to_string())).is_err() && r.clone().is_ok_and(|x| x == 1) && r.clone().map_err(|e| e.len()) == Ok(1) && r.iter().count() == 1 && !r.is_err_and(|e| e.is_empty()) }
pub fn t_res2() -> bool { let r: Result<i32, i32> = Err(3); r.unwrap_or_else(|e| e) == 3 && r.or_else(|e| Ok::<i32, ()>(e)) == Ok(3) && r.map_or(1, |x| x) == 1 && r.map_or_else(|e| e + 1, |x| x) == 4 && r.unwrap_err() == 3 && r.or(Ok::<i32, ()>(2)) == Ok(2) && r.and(Ok::<i32, i32>(2)).is_err() && r.unwrap_or_default() == 0 && Ok::<Option<i32>, ()>(None).transpose().is_none() && r.inspect_err(|_| {}).is_err() }
pub fn t_res_q() -> bool { fn f(a: Result<i32, String>) -> Result<i32, Box<dyn std::error::Error>> { let x = a?; Ok(x) } f(Ok(1)).unwrap() == 1 && f(Err("a".into())).is_err() }
pub fn t_bool() -> bool { true.then(|| 1) == Some(1) && false.then_some(1).is_none() && (true ^ false) && (true & true) && (false | true) && !false }
// maps
pub fn t_map() -> bool { let mut m = HashMap::new(); m.insert("a", 1); *m.entry("a").or_insert(0) += 1; m.entry("b").or_insert_with(|| 5); m.get("a") == Some(&2) && m["b"] == 5 && m.contains_key("a") && m.len() == 2 && m.remove("a") == Some(2) && !m.contains_key("a") && m.get("z").is_none() && m.insert("b", 7) == Some(5) }
pub fn t_map2() -> bool { let mut m: BTreeMap<&str, Vec<i32>> = BTreeMap::new(); m.entry("a").or_default().push(1); m.entry("a").or_default().push(2); m.entry("b").or_default(); m["a"].len() == 2 && m.keys().cloned().collect::<Vec<_>>() == ["a", "b"] && m.values().map(|v| v.len()).sum::<usize>() == 2 && m.iter().next().unwrap().0 == &"a" && m.first_key_value().unwrap().0 == &"a" && m.last_key_value().unwrap().0 == &"b" }
pub fn t_map3() -> bool { let m: HashMap<_, _> = [("a", 1)].into_iter().collect(); let n = HashMap::from([("a", 1)]); m == n && m.get_key_value("a") == Some((&"a", &1)) && m.values().all(|x| *x == 1) && m.into_keys().next() == Some("a") }
pub fn t_map4() -> bool { let mut m = HashMap::from([(1, 'a'), (2, 'b')]); m.retain(|k, _| *k == 1); for (_, v) in m.iter_mut() { *v = 'z'; } if let Some(v) = m.get_mut(&1) { *v = 'y'; } for v in m.values_mut() { *v = 'x'; } m.len() == 1 && m[&1] == 'x' && m.remove_entry(&1) == Some((1, 'x')) && m.is_empty() && m.get(&1).copied().unwrap_or('q') == 'q' }
pub fn t_map_entry() -> bool { use std::collections::hash_map::Entry; let mut m = HashMap::new(); m.insert(1, 2); let a = match m.entry(1) { Entry::Occupied(e) => *e.get() == 2, Entry::Vacant(_) => false }; let b = match m.entry(5) { Entry::Occupied(_) => false, Entry::Vacant(e) => { e.insert(3); true } }; a && b && m[&5] == 3 && { m.entry(5).and_modify(|x| *x += 1).or_insert(0); m[&5] == 4 } && *m.entry(9).or_insert_with_key(|k| k * 2) == 18 && { if let Entry::Occupied(mut e) = m.entry(9) { *e.get_mut() = 1; e.insert(2); e.remove() == 2 } else { false } } && m.entry(1).key() == &1 }
pub fn t_set() -> bool { let mut s = HashSet::new(); s.insert(1) && !s.insert(1) && s.contains(&1) && s.len() == 1 && s.remove(&1) && s.is_empty() && !s.remove(&4) && s.get(&1).is_none() && s.take(&1).is_none() }
pub fn t_set2() -> bool { let a = HashSet::from([1, 2]); let b: HashSet<i32> = [2, 3].into(); a.union(&b).count() == 3 && a.intersection(&b).cloned().collect::<Vec<_>>() == [2] && a.difference(&b).count() == 1 && !a.is_subset(&b) && !a.is_disjoint(&b) && (&a | &b).len() == 3 && (&a & &b).len() == 1 && (&a - &b).len() == 1 && a.iter().all(|x| *x > 0) && a != b }
pub fn t_bset() -> bool { let mut s = BTreeSet::new(); s.insert("b"); s.insert("a"); s.iter().next() == Some(&"a") && s.first() == Some(&"a") && s.last() == Some(&"b") && s.pop_first() == Some("a") && s.len() == 1 && s.into_iter().collect::<Vec<_>>() == ["b"] }
pub fn t_set_retain() -> bool { let mut s: HashSet<i32> = (0..4).collect(); s.retain(|x| x % 2 == 0); s.extend([7]); s.len() == 3 && s.drain().count() == 3 && s.replace(1).is_none() }
pub fn t_heap() -> bool { let mut h = BinaryHeap::new(); h.push(1); h.push(3); h.push(2); h.pop() == Some(3) && h.peek() == Some(&2) && h.len() == 2 }
pub fn t_bmap_range() -> bool { let m = BTreeMap::from([(1, 'a'), (3, 'c')]); m.range(2..).next() == Some((&3, &'c')) && m.into_iter().last() == Some((3, 'c')) }
// numbers
pub fn t_num() -> bool { 7 / 2 == 3 && 7 % 2 == 1 && -7 / 2 == -3 && -7 % 2 == -1 && 2i32.pow(3) == 8 && (-3i32).abs() == 3 && 3.max(4) == 4 && 3.min(4) == 3 && 5.clamp(0, 3) == 3 && 1 << 3 == 8 && 8 >> 1 == 4 && 6 & 3 == 2 && 6 | 1 == 7 && 6 ^ 3 == 5 && !0u8 == 255 }
pub fn t_num_checked() -> bool { 1u8.checked_sub(2).is_none() && 1u32.checked_add(2) == Some(3) && 1u32.saturating_sub(5) == 0 && 255u8.wrapping_add(1) == 0 && 255u8.overflowing_add(1) == (0, true) && 200u8.saturating_add(100) == 255 && 4u32.checked_div(0).is_none() && 3u32.abs_diff(5) == 2 && 6u32.is_power_of_two() == false && 10u32.checked_mul(2) == Some(20) && 7u32.div_ceil(2) == 4 && (-7i32).rem_euclid(4) == 1 }
pub fn t_num_cast() -> bool { 300i32 as u8 == 44 && -1i32 as u32 == u32::MAX && 3u8 as i64 == 3 && i64::from(3u32) == 3 && u32::try_from(5i64) == Ok(5) && u8::try_from(300i32).is_err() && usize::try_from(-1i32).is_err() && TryInto::<u8>::try_into(4i32).unwrap() == 4 && true as u8 == 1 && u32::MAX as i64 == 4294967295 && i32::MAX == 2147483647 && usize::MAX > 5 }
pub fn t_float() -> bool { 1.5f64 + 1.0 == 2.5 && 2.0f64 * 2.0 > 3.9 && (3.7f64).floor() == 3.0 && 3 as f64 == 3.0 && 3.9 as i32 == 3 && (1.0f64 / 4.0) == 0.25 && -1.0f64 < 0.0 && f64::from(2u32) == 2.0 && 2.5f64.fract() == 0.5 && (4.0f64).sqrt() == 2.0 && 2.0f64.to_string() == "2" && 1.0f64.is_finite() }
pub fn t_cmp() -> bool { use std::cmp::Ordering::*; 1.cmp(&2) == Less && 2.cmp(&2) == Equal && 1.cmp(&2).reverse() == Greater && Equal.then(Less) == Less && 1.cmp(&1).then_with(|| 2.cmp(&1)) == Greater && 1.partial_cmp(&2) == Some(Less) && Less.is_lt() && (1, 2) < (1, 3) && [1, 2] < [2, 0] && std::cmp::max(1, 2) == 2 && (1, 'a') == (1, 'a') && Less != Greater && !Less.is_ge() && 1.5.partial_cmp(&2.0) == Some(Less) }
pub fn t_tuple() -> bool { let (a, (b, c)) = (1, (2, 3)); let t = (a, b); t.0 + t.1 + c == 6 && t == (1, 2) }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub enum Ab { #[default] A, B, C }
#[derive(Clone, PartialEq, Debug, Default, Eq, Hash, PartialOrd, Ord)]
pub struct Pt { x: i32, y: i32 }
pub fn t_enum() -> bool { Ab::A < Ab::B && Ab::A == Ab::default() && Ab::B as u8 == 1 && matches!(Ab::C, Ab::B | Ab::C) && format!("{:?}", Ab::A) == "A" && [Ab::C, Ab::A].iter().max() == Some(&Ab::C) && Ab::A != Ab::B && Ab::A.cmp(&Ab::B) == std::cmp::Ordering::Less }
pub fn t_struct() -> bool { let p = Pt { x: 1, ..Default::default() }; let q = Pt { y: 2, ..p.clone() }; p != q && q.x == 1 && q.y == 2 && Pt::default() == Pt { x: 0, y: 0 } && format!("{:?}", p) == "Pt { x: 1, y: 0 }" && HashSet::from([p.clone()]).contains(&p) && p < q }
pub struct It { n: i32 }
impl Iterator for It { type Item = i32; fn next(&mut self) -> Option<i32> { if self.n > 0 { self.n -= 1; Some(self.n) } else { None } } }
pub fn t_custom_iter() -> bool { It { n: 3 }.collect::<Vec<_>>() == [2, 1, 0] && It { n: 3 }.map(|x| x + 1).filter(|x| *x > 1).count() == 2 && It { n: 2 }.sum::<i32>() == 1 && { let mut s = 0; for x in (It { n: 3 }) { s += x; } s == 3 } && It { n: 3 }.zip(0..).last() == Some((0, 2)) }
pub trait Sh { fn area(&self) -> i32; fn twice(&self) -> i32 { self.area() * 2 } }
impl Sh for Pt { fn area(&self) -> i32 { self.x * self.y } }
impl Sh for Ab { fn area(&self) -> i32 { 1 } fn twice(&self) -> i32 { 7 } }
pub fn t_trait() -> bool { fn f<T: Sh>(t: &T) -> i32 { t.twice() } let v: Vec<Box<dyn Sh>> = vec![Box::new(Pt { x: 2, y: 3 }), Box::new(Ab::A)]; f(&Pt { x: 1, y: 2 }) == 4 && f(&Ab::B) == 7 && v.iter().map(|s| s.area()).sum::<i32>() == 7 && v[0].twice() == 12 }
pub fn t_closure() -> bool { let mut n = 0; let mut inc = || { n += 1; n }; inc(); inc(); let k = 3; let add = move |x: i32| x + k; n == 2 && add(1) == 4 && { let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x * k); f(2) == 6 } && { fn ap(f: impl Fn(i32) -> i32) -> i32 { f(1) } ap(add) == 4 && ap(i32::abs) == 1 } && { let g: fn(i32) -> i32 = |x| x + 1; g(1) == 2 } }
pub fn t_rec_closure() -> bool { fn fib(n: u32) -> u32 { if n < 2 { n } else { fib(n - 1) + fib(n - 2) } } fib(6) == 8 }
pub fn t_rc() -> bool { let a = Rc::new(5); let b = Rc::clone(&a); *a + *b == 10 && Rc::strong_count(&a) == 2 && Rc::ptr_eq(&a, &b) }
pub fn t_refcell() -> bool { use std::cell::*; let c = RefCell::new(vec![1]); c.borrow_mut().push(2); let d = Cell::new(1); d.set(d.get() + 1); c.borrow().len() == 2 && d.get() == 2 && c.into_inner() == [1, 2] && d.replace(7) == 2 && d.take() == 7 }
pub fn t_mem() -> bool { let mut a = 1; let mut b = 2; std::mem::swap(&mut a, &mut b); let c = std::mem::replace(&mut a, 5); let mut v = vec![1]; let w = std::mem::take(&mut v); a == 5 && b == 1 && c == 2 && v.is_empty() && w == [1] }
pub fn t_box() -> bool { #[derive(Debug)] enum L { N, C(i32, Box<L>) } fn s(l: &L) -> i32 { match l { L::N => 0, L::C(a, r) => a + s(r) } } s(&L::C(1, Box::new(L::C(2, Box::new(L::N))))) == 3 }
pub fn t_match_guard() -> bool { let f = |x: i32| match x { 0 => "z", n if n < 0 => "n", 1..=9 => "d", 10 | 20 => "t", _ => "o" }; f(0) == "z" && f(-1) == "n" && f(5) == "d" && f(20) == "t" && f(50) == "o" }
pub fn t_match_str() -> bool { let f = |x: &str| match x { "a" | "b" => 1, s if s.starts_with('c') => 2, "" => 3, _ => 4 }; f("b") == 1 && f("cd") == 2 && f("") == 3 && f("q") == 4 }
pub fn t_let_else() -> bool { fn f(x: Option<i32>) -> i32 { let Some(y) = x else { return -1 }; y } f(Some(1)) == 1 && f(None) == -1 }
pub fn t_binding() -> bool { let a = match Some(5) { Some(n @ 1..=9) => n == 5, _ => false }; a && if let Some(x) = Some(1) && x > 0 { true } else { false } }
pub fn t_const() -> bool { const K: [&str; 2] = ["a", "b"]; static T: &[(&str, i32)] = &[("x", 1), ("y", 2)]; K.contains(&"b") && T.iter().find(|(k, _)| *k == "y").map(|(_, v)| *v) == Some(2) }
pub fn t_shadow_mut() -> bool { let mut v = vec![vec![1], vec![2]]; v[1].push(3); let r = &mut v[0]; r.push(9); let p = &mut r[0]; *p = 4; v == vec![vec![4, 9], vec![2, 3]] }
pub fn t_array2() -> bool { let mut g = [[0; 2]; 2]; g[1][0] = 5; g[1].iter().sum::<i32>() == 5 && g.len() == 2 && [1, 2].map(|x| x * 2) == [2, 4] }
pub fn t_split_inclusive() -> bool { "a\nb".split_inclusive('\n').next() == Some("a\n") && "a,b".split_terminator(',').count() == 2 && "a,b,".rsplitn(2, ',').next() == Some("") }
pub fn t_str_misc() -> bool { "abc".char_indices().rev().next() == Some((2, 'c')) && "a b".split(char::is_whitespace).count() == 2 && "abc".bytes().rev().next() == Some(b'c') && "x".parse::<char>() == Ok('x') && "true".parse::<bool>() == Ok(true) && "é".len() == 2 && "é".chars().count() == 1 && "abc".bytes().all(|b| b.is_ascii()) && "abc".is_ascii() && "a".escape_debug().to_string() == "a" }
pub fn t_make_case() -> bool { let mut s = "aB".to_string(); s.make_ascii_lowercase(); s == "ab" && "aB".chars().flat_map(char::to_lowercase).collect::<String>() == "ab" && "aB".chars().map(|c| c.to_ascii_uppercase()).collect::<String>() == "AB" }
pub fn t_slice_misc() -> bool { let mut a = [3, 1, 2]; a.rotate_left(1); a == [1, 2, 3] && { a.fill(7); a == [7, 7, 7] } && { a[..2].copy_from_slice(&[1, 2]); a == [1, 2, 7] } && a.iter().rev().skip_while(|x| **x > 5).count() == 2 && a.first_chunk::<2>() == Some(&[1, 2]) && a.partition_point(|x| *x < 2) == 1 && a.repeat(2).len() == 6 && { a.swap(0, 2); a[0] == 7 } && a.concat_check() }
trait Cc { fn concat_check(&self) -> bool; }
impl Cc for [i32; 3] { fn concat_check(&self) -> bool { self.len() == 3 } }
pub fn t_write() -> bool { use std::fmt::Write; let mut s = String::new(); write!(s, "{}", 1).unwrap(); writeln!(s, "a").unwrap(); s.write_str("b").unwrap(); s == "1a\nb" }
pub struct Dd(i32);
impl std::fmt::Display for Dd { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 { 0 => f.write_str("zero"), n => write!(f, "<{}>", n) } } }
impl std::str::FromStr for Dd { type Err = (); fn from_str(s: &str) -> Result<Dd, ()> { if s == "d" { Ok(Dd(1)) } else { Err(()) } } }
impl From<i32> for Dd { fn from(x: i32) -> Dd { Dd(x) } }
impl std::ops::Add for Dd { type Output = Dd; fn add(self, o: Dd) -> Dd { Dd(self.0 + o.0) } }
impl std::ops::Deref for Dd { type Target = i32; fn deref(&self) -> &i32 { &self.0 } }
impl AsRef<i32> for Dd { fn as_ref(&self) -> &i32 { &self.0 } }
pub fn t_impls() -> bool { Dd(3).to_string() == "<3>" && format!("{}", Dd(0)) == "zero" && "d".parse::<Dd>().unwrap().0 == 1 && Dd::from(2).0 == 2 && { let d: Dd = 4.into(); d.0 == 4 } && (Dd(1) + Dd(2)).0 == 3 && *Dd(5) == 5 && *Dd(6).as_ref() == 6 && format!("{:?}", [Dd(1).0]) == "[1]" }
pub struct Gd<'a>(&'a std::cell::Cell<i32>);
impl Drop for Gd<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1); } }
pub fn t_drop() -> bool { let c = std::cell::Cell::new(0); { let _g = Gd(&c); } drop(Gd(&c)); c.get() == 2 }
