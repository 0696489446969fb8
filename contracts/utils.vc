@fn utils::binary_search_min
@ret r
@spec
requires
    cmp_ok(cmp, key),
    sorted_slice@.len() <= usize::MAX / 2,
ensures
    search_res(cmp, sorted_slice@, key, r),
@loop 0
invariant
    cmp_ok(cmp, key),
    sorted_slice@.len() <= usize::MAX / 2,
    i < sorted_slice@.len(),
    j < sorted_slice@.len(),
    i <= j,
    eq ==> cmps(cmp, sorted_slice@[i as int], key, Ordering::Equal),
    !eq ==> cmps(cmp, sorted_slice@[i as int], key, Ordering::Less),
    i < j ==> cmps(cmp, sorted_slice@[j as int], key, Ordering::Greater),
    i == j ==> j + 1 == sorted_slice@.len(),
ensures
    eq || j - i <= 1,
decreases
    j - i + (if eq { 0int } else { 1 }),
