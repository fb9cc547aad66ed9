stop core::fmt::*
stop std::fmt::*
redirect <std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter => m_vec_from_iter
redirect <std::vec::Vec<T, A> as std::iter::Extend<T>>::extend => m_vec_extend
redirect <std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend => m_vec_extend_ref
redirect std::vec::Vec::<T, A>::retain => m_vec_retain
redirect std::vec::Vec::<T, A>::retain_mut => m_vec_retain_mut
redirect std::vec::Vec::<T, A>::dedup_by => m_vec_dedup_by
redirect std::vec::Vec::<T, A>::resize_with => m_vec_resize_with
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::fold => m_iter_fold
redirect <std::slice::IterMut<'a, T> as std::iter::Iterator>::fold => m_itermut_fold
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::all => m_iter_all
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::any => m_iter_any
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::find => m_iter_find
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::find_map => m_iter_find_map
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::position => m_iter_position
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::for_each => m_iter_for_each
redirect <std::slice::IterMut<'a, T> as std::iter::Iterator>::all => m_itermut_all
redirect <std::slice::IterMut<'a, T> as std::iter::Iterator>::any => m_itermut_any
redirect <std::slice::IterMut<'a, T> as std::iter::Iterator>::find => m_itermut_find
redirect <std::slice::IterMut<'a, T> as std::iter::Iterator>::find_map => m_itermut_find_map
redirect <std::slice::IterMut<'a, T> as std::iter::Iterator>::position => m_itermut_position
redirect <std::slice::IterMut<'a, T> as std::iter::Iterator>::for_each => m_itermut_for_each
redirect core::slice::<impl [T]>::contains => m_slice_contains
redirect std::slice::<impl [T]>::sort => m_sort
redirect std::slice::<impl [T]>::sort_by => m_sort_by
redirect std::slice::<impl [T]>::sort_by_key => m_sort_by_key
redirect core::slice::<impl [T]>::sort_unstable => m_sort
redirect core::slice::<impl [T]>::sort_unstable_by => m_sort_by
redirect core::slice::<impl [T]>::sort_unstable_by_key => m_sort_unstable_by_key
redirect <std::slice::Iter<'a, T> as std::iter::Iterator>::rposition => m_iter_rposition
redirect <std::vec::IntoIter<T, A> as std::iter::Iterator>::fold => m_into_fold
redirect <std::vec::IntoIter<T, A> as std::iter::Iterator>::try_fold => m_into_try_fold
redirect <std::array::IntoIter<T, N> as std::iter::Iterator>::fold => m_array_fold
redirect <std::array::IntoIter<T, N> as std::iter::Iterator>::try_fold => m_array_try_fold
redirect <std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::next => m_zip_next
redirect <std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::fold => m_zip_fold
redirect std::array::from_fn => m_array_from_fn
redirect std::array::<impl [T; N]>::map => m_array_map
