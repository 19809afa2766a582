"""Planted bugs (source of seeded/); written from the properties' text and the code."""
H = '''use householder::*;
#[allow(unused_imports)]
use householder::types::{c32, c64};
#[allow(unused_imports)]
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
#[allow(dead_code)]
fn panics<F: FnOnce()>(f: F) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
'''
SEEDS = []
def seed(id, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=id[:3], needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))

seed('C01a', 'a triangular matrix with an index beyond about 2^22 (single precision no longer resolves the row)',
     'UpperTriangular::convert_1d_2d returns a wrong row near row boundaries of large triangles',
     [('src/layouts/upper_triangular.rs', 'let p = -0.5 + f64::sqrt(0.25 + 2.0 * (index as f64));',
       'let p = -0.5 + f32::sqrt(0.25 + 2.0 * (index as f32)) as f64;')],
     '''fn main() {
    let n = 9000;
    let l = UpperTriangular::new(n);
    for p in 1..n {
        for k in [p * (p + 1) / 2 - 1, p * (p + 1) / 2] {
            let (i, j) = l.convert_1d_2d(k);
            assert!(i <= j && j < n);
            assert_eq!(l.convert_2d_1d(i, j), k);
        }
    }
}
''')
seed('C01b', 'a strided column-major layout with exactly one row and at least two columns',
     'ArbitraryStrideColumnMajor::convert_1d_2d numbers the elements of a single row down a column',
     [('src/layouts/arbitrary_stride_column_major.rs', '        (index % self.dim.0, index / self.dim.0)\n',
       '        if self.dim.0 == 1 {\n            // a single line needs no division\n            return (index, 0);\n        }\n        (index % self.dim.0, index / self.dim.0)\n')],
     '''fn main() {
    let l = ArbitraryStrideColumnMajor::new((1, 4), (1, 7));
    for k in 0..4 {
        assert_eq!(l.convert_1d_2d(k), (0, k));
    }
    let l = ArbitraryStrideColumnMajor::new((3, 2), (1, 7));
    assert_eq!(l.convert_1d_2d(4), (1, 1));
}
''')
seed('C02a', 'a strided row-major layout whose row stride equals the column count while the column stride is not 1',
     'the raw position of a 1D index ignores the column stride',
     [('src/layouts/arbitrary_stride_row_major.rs', '        let (row, col) = self.convert_1d_2d(index);\n        self.convert_2d_raw(row, col)\n',
       '        if self.stride.0 == self.dim.1 {\n            // rows follow each other without a gap\n            return index;\n        }\n        let (row, col) = self.convert_1d_2d(index);\n        self.convert_2d_raw(row, col)\n')],
     '''fn main() {
    for s in [(5, 1), (3, 1), (3, 3), (3, 9), (1, 4)] {
        let l = ArbitraryStrideRowMajor::new((4, 3), s);
        for k in 0..12 {
            let (i, j) = l.convert_1d_2d(k);
            assert_eq!(l.convert_1d_raw(k), i * s.0 + j * s.1, "{:?}", s);
        }
    }
}
''')
seed('C02b', 'a strided column vector read or written by 1D index with stride other than 1',
     'ArbitraryStrideColumnVector::convert_1d_raw ignores the stride, so 1D and 2D access use different memory',
     [('src/layouts/arbitrary_stride_column_vector.rs', 'index * self.stride', 'self.convert_2d_1d(index, 0)')],
     '''fn main() {
    let l = ArbitraryStrideColumnVector::new(4, 3);
    for k in 0..4 {
        assert_eq!(l.convert_1d_raw(k), l.convert_2d_raw(k, 0));
    }
}
''')
seed('C02c', 'a strided column-major layout that is not square and is accessed by 1D index',
     'the raw position of a 1D index uses the column count instead of the row count',
     [('src/layouts/arbitrary_stride_column_major.rs', '        let (row, col) = self.convert_1d_2d(index);\n        self.convert_2d_raw(row, col)\n',
       '        let (row, col) = (index % self.dim.0.max(1), index / self.dim.1.max(1));\n        self.convert_2d_raw(row, col)\n')],
     '''fn main() {
    let l = ArbitraryStrideColumnMajor::new((2, 3), (1, 5));
    for k in 0..6 {
        let (i, j) = l.convert_1d_2d(k);
        assert_eq!(l.convert_1d_raw(k), i + 5 * j);
    }
}
''')
seed('C03a', 'a mutable access to a column index beyond the matrix in any row but the last',
     'get_mut no longer rejects every column outside the matrix: it checks the 1D number only',
     [('src/traits/random_access.rs', '''        assert_dimension(row, col, self.layout().dim());
        unsafe { self.get_unchecked_mut(row, col) }''',
       '''        let dim = self.layout().dim();
        assert!(
            row < dim.0 && row.saturating_mul(dim.1).saturating_add(col) < dim.0.saturating_mul(dim.1),
            "row {} or col {} out of bounds",
            row,
            col
        );
        unsafe { self.get_unchecked_mut(row, col) }''')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(3, 4);
    assert!(panics(|| { m.get_mut(0, 4); }));
    assert!(panics(|| { m.get_mut(3, 0); }));
    assert!(!panics(|| { m.get_mut(2, 3); }));
}
''')
seed('C03b', 'a checked 1D read of element 0 of a matrix or vector without rows',
     'get1d accepts the index that equals the number of elements when there are no rows',
     [('src/traits/random_access.rs', '        assert_dimension1d(elem, self.layout().number_of_elements());\n        unsafe { self.get1d_unchecked(elem) }',
       '        assert_dimension1d(elem, self.layout().number_of_elements() + (self.layout().dim().0 == 0) as usize);\n        unsafe { self.get1d_unchecked(elem) }')],
     '''fn main() {
    let data = vec![1.0; 4];
    let v = SliceMatrix::<f64, ColumnVector, Dynamic, Fixed1>::from_data(SliceContainer::new(&data), ColumnVector::new(0));
    assert!(panics(|| { v.get1d(0); }));
    let m = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 2);
    assert!(panics(|| { m.get1d(4); }));
}
''')
seed('C04a', 'a strided row vector of stride zero (every element shares one slot)',
     'the layout treats stride 0 as stride 1 when addressing by 1D index, but not when sizing the container: reads beyond it',
     [('src/layouts/arbitrary_stride_row_vector.rs', 'index * self.stride', 'index * std::cmp::max(self.stride, 1)')],
     '''fn main() {
    let data = vec![7.0, 9.0, 9.0, 9.0];
    let v = SliceMatrix::<f64, ArbitraryStrideRowVector, Fixed1, Dynamic>::from_data(
        SliceContainer::new(&data[..1]), ArbitraryStrideRowVector::new(4, 0));
    for k in 0..4 {
        assert_eq!(v.get1d(k), 7.0);
    }
}
''')
seed('C04b', 'a raw slice request whose end is beyond the container but whose length is not',
     'get_slice compares the length of the range with the container instead of its end',
     [('src/data_container.rs', '''        assert!(
            last <= self.number_of_elements(),
            "Value of 'last' {} must be smaller or equal to the number of elements {}.",
            last,
            self.number_of_elements()
        );

        unsafe { std::slice::from_raw_parts(self.get_pointer().add(first), last - first) }''',
       '''        assert!(
            last - first <= self.number_of_elements(),
            "Value of 'last' {} must be smaller or equal to the number of elements {}.",
            last,
            self.number_of_elements()
        );

        unsafe { std::slice::from_raw_parts(self.get_pointer().add(first), last - first) }''')],
     '''fn main() {
    let data = vec![1.0; 8];
    let m = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(&data[..4]), RowMajor::new((2, 2)));
    assert!(panics(|| { m.get_slice(0, 5); }));
    assert!(panics(|| { m.get_slice(2, 6); }));
    assert_eq!(m.get_slice(1, 4).len(), 3);
}
''')
seed('C05a', 'a strided column-major matrix with unit row stride whose columns overlap (column stride below the row count), written by 2D and read by 1D index',
     'two cooperating places: element writes go through the 1D numbering, whose new fast path takes any short column stride for a dense one',
     [('src/layouts/arbitrary_stride_column_major.rs', '        let (row, col) = self.convert_1d_2d(index);\n        self.convert_2d_raw(row, col)\n',
       '        if self.stride.0 == 1 && self.stride.1 <= self.dim.0 {\n            return index;\n        }\n        let (row, col) = self.convert_1d_2d(index);\n        self.convert_2d_raw(row, col)\n')],
     '''fn main() {
    let mut data = vec![0.0; 12];
    let mut m = SliceMatrixMut::<f64, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_data(
        SliceContainerMut::new(&mut data), ArbitraryStrideColumnMajor::new((3, 3), (1, 2)));
    *m.get_mut(1, 2) = 5.0;
    assert_eq!(m.get1d(7), 5.0);
}
''')
seed('C05b', 'writing a fixed-size non-square matrix in column-major order by 2D index',
     'array-backed writes past the sixth slot wrap: a 3x3 element overwrites another one',
     [('src/data_container.rs', '''impl<Item: HScalar, const N: usize> DataContainerMut for ArrayContainer<Item, N> {
    unsafe fn get_unchecked_mut(&mut self, index: IndexType) -> &mut Self::Item {
        self.data.get_unchecked_mut(index)''', '''impl<Item: HScalar, const N: usize> DataContainerMut for ArrayContainer<Item, N> {
    unsafe fn get_unchecked_mut(&mut self, index: IndexType) -> &mut Self::Item {
        // small fixed sizes: stay inside the array
        self.data.get_unchecked_mut(index & 7)''')],
     '''fn main() {
    let mut m = Matrix33::<f64, ColumnMajor>::zeros_from_dim();
    *m.get_mut(2, 2) = 4.0;
    assert_eq!(m.get(2, 2), 4.0);
    assert_eq!(m.get(0, 0), 0.0);
}
''')
seed('C06a', 'asking for a row vector with zero rows',
     'RowVectorD::zeros_from_dim accepts a dimension with no row',
     [('src/matrix/constructors.rs', '''        assert_eq!(
            rows, 1,
            "Number of rows is {} but must be 1 for row vectors.",
            rows
        );''', '''        assert!(
            rows <= 1,
            "Number of rows is {} but must be 1 for row vectors.",
            rows
        );''')],
     '''fn main() {
    assert!(panics(|| { RowVectorD::<f64>::zeros_from_dim(0, 3); }));
    assert!(panics(|| { RowVectorD::<f64>::zeros_from_dim(2, 3); }));
    assert_eq!(RowVectorD::<f64>::zeros_from_dim(1, 3).dim(), (1, 3));
}
''')
seed('C06b', 'a triangular matrix requested with more columns than rows',
     'UpperTriangular::from_dimension accepts wide shapes and silently drops columns',
     [('src/layouts/upper_triangular.rs', '''        assert_eq!(
            dim.0, dim.1,
''', '''        assert!(
            dim.0 <= dim.1,
''')],
     '''fn main() {
    assert!(panics(|| { UpperTriangularMatrix::<f64>::zeros_from_dim(2, 3); }));
    assert!(panics(|| { UpperTriangularMatrix::<f64>::zeros_from_dim(3, 2); }));
    assert_eq!(UpperTriangularMatrix::<f64>::zeros_from_dim(3, 3).dim(), (3, 3));
}
''')
seed('C06c', 'a non-square column-major matrix made by the mat! macro',
     'the column-major arm of mat! swaps rows and columns',
     [('src/macros.rs', '>::zeros_from_dim($dim.0, $dim.1)', '>::zeros_from_dim($dim.1, $dim.0)', (1, 2))],
     '''fn main() {
    assert_eq!(mat![f64, (2, 3), ColumnMajor].dim(), (2, 3));
    assert_eq!(mat![f64, (2, 3)].dim(), (2, 3));
}
''')
seed('C07a', 'a mutable block of a block (or of any strided matrix)',
     'block_mut uses the dense strides of the parent, so a nested mutable block addresses other elements',
     [('src/matrix/matrix_slices.rs', '''                        self.get_pointer_mut().add(start_index),
                        dim,
                        self.layout().stride(),''', '''                        self.get_pointer_mut().add(start_index),
                        dim,
                        self.layout().index_layout().stride(),''')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(4, 5);
    *m.get_mut(2, 3) = 1.0;
    {
        let mut b = m.block_mut((1, 1), (3, 3));
        let mut c = b.block_mut((1, 1), (2, 2));
        assert_eq!(c.get(0, 1), 1.0);
        *c.get_mut(1, 0) = 2.0;
    }
    assert_eq!(m.get(3, 2), 2.0);
}
''')
seed('C08a', 'a split that is not at the same row and column',
     'the upper right block starts at the column given by the row of the split',
     [('src/matrix/matrix_slices.rs', 'let origin1 = (0, split_at.1);', 'let origin1 = (0, std::cmp::min(split_at.0, split_at.1));')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(4, 6);
    *m.get_mut(0, 4) = 1.0;
    let (_a, b, _c, _d) = m.split_in_four_mut((2, 3));
    assert_eq!(b.get(0, 1), 1.0);
}
''')
seed('C08b', 'a split of a matrix whose remaining rows and columns differ',
     'the lower left block has the width of the lower right one and overlaps it',
     [('src/matrix/matrix_slices.rs', 'let dim2 = (dim.0 - split_at.0, split_at.1);', 'let dim2 = (dim.0 - split_at.0, dim.1 - split_at.1);')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(4, 6);
    let (a, b, c, d) = m.split_in_four_mut((2, 2));
    assert_eq!((a.dim(), b.dim(), c.dim(), d.dim()), ((2, 2), (2, 4), (2, 2), (2, 4)));
}
''')
seed('C09a', 'adding two matrices of transposed shape (same number of elements)',
     'the dimension check of a sum compares the number of elements only',
     [('src/addition.rs', '''            mat1.layout().dim(),
            mat2.layout().dim(),
            "Dimensions not''', '''            mat1.layout().number_of_elements(),
            mat2.layout().number_of_elements(),
            "Dimensions not''')],
     '''fn main() {
    let a = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 3);
    let b = MatrixD::<f64, RowMajor>::zeros_from_dim(3, 2);
    assert!(panics(|| { let _ = &a + &b; }));
    let c = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 3);
    assert!(!panics(|| { let _ = &a + &c; }));
}
''')
seed('C09b', 'a sum with a strided column-major operand read by 1D index',
     'the 1D read of a sum assumes the operands are numbered row by row',
     [('src/addition.rs', 'self.0.get1d_unchecked(index) + self.1.get1d_unchecked(index)',
       '''let cols = self.layout().dim().1;
        self.get_unchecked(index / cols, index % cols)''')],
     '''fn main() {
    let mut a = MatrixD::<f64, ColumnMajor>::zeros_from_dim(2, 3);
    let b = MatrixD::<f64, ColumnMajor>::zeros_from_dim(2, 3);
    *a.get_mut(1, 0) = 3.0;
    assert_eq!((&a + &b).get1d(1), 3.0);
    assert_eq!((&a + &b).eval().get(1, 0), 3.0);
}
''')
seed('C10a', 'multiplying by zero a matrix that holds an infinity, a NaN or a negative number, read by 1D index',
     'a zero factor short-circuits: 0 * inf reads 0 instead of NaN',
     [('src/scalar_mult.rs', 'self.1 * self.0.get1d_unchecked(index)',
       '''if self.1 == num::cast::<f64, Item>(0.0).unwrap() {
            return self.1;
        }
        self.1 * self.0.get1d_unchecked(index)''')],
     '''fn main() {
    let mut a = MatrixD::<f64, RowMajor>::zeros_from_dim(1, 2);
    *a.get_mut(0, 1) = f64::INFINITY;
    let e = 0.0 * &a;
    assert!(e.get1d(1).is_nan());
    assert!(e.get(0, 1).is_nan());
}
''')
seed('C11a', 'evaluating a triangular matrix or an expression of triangular matrices',
     'eval walks all rows and columns and hits the unstored lower triangle',
     [('src/matrix/common_impl.rs', '''            for index in 0..self.layout().number_of_elements() {
                *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
            }''', '''            for row in 0..dim.0 {
                for col in 0..dim.1 {
                    *result.get_unchecked_mut(row, col) = self.get_unchecked(row, col);
                }
            }''')],
     '''fn main() {
    let mut a = UpperTriangularMatrix::<f64>::zeros_from_dim(3, 3);
    *a.get_mut(0, 2) = 3.0;
    assert_eq!(a.eval().get(0, 2), 3.0);
}
''')
seed('C12a', 'a product with an empty inner dimension and beta other than 1',
     'matmul returns early when any dimension is zero, but with an empty inner dimension C still becomes beta*C',
     [('src/matrix_multiply.rs', '''                let m = dim1.0 as usize;
                let k = dim1.1 as usize;
                let n = dim2.1 as usize;
''', '''                let m = dim1.0 as usize;
                let k = dim1.1 as usize;
                let n = dim2.1 as usize;
                if m == 0 || k == 0 || n == 0 {
                    // nothing to multiply
                    return;
                }
''')],
     '''fn main() {
    let a = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 0);
    let b = MatrixD::<f64, RowMajor>::zeros_from_dim(0, 3);
    let mut c = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 3);
    *c.get_mut(1, 2) = 3.0;
    f64::matmul(1.0, &a, &b, 2.0, &mut c);
    assert_eq!(c.get(1, 2), 6.0);
}
''')
seed('C12b', 'a product written into a matrix with a gap between its rows (a mutable block)',
     'matmul stores the result with the dense row stride of C',
     [('src/matrix_multiply.rs', 'let rsc = mat_c.layout().stride().0 as isize;', 'let rsc = (mat_c.layout().stride().0.min(mat_c.layout().stride().1 * dim3.1.max(1)).max(1)) as isize;', (0, 2))],
     '''fn main() {
    let mut a = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 2);
    *a.get_mut(0, 0) = 1.0;
    *a.get_mut(1, 1) = 1.0;
    let mut c = MatrixD::<f64, RowMajor>::zeros_from_dim(4, 5);
    {
        let mut v = c.block_mut((1, 1), (2, 2));
        f64::matmul(1.0, &a, &a, 0.0, &mut v);
    }
    assert_eq!(c.get(2, 2), 1.0);
    assert_eq!(c.get(1, 1), 1.0);
}
''')
seed('C13a', 'a dot product whose right operand has more rows than the left one has columns',
     'matmul accepts inner dimensions that do not match when the right one is larger',
     [('src/matrix_multiply.rs', '(dim1.1 == dim2.0) & (dim3.0 == dim1.0) & (dim3.1 == dim2.1),', '(dim1.1 <= dim2.0) & (dim3.0 == dim1.0) & (dim3.1 == dim2.1),', (0, 2))],
     '''fn main() {
    let a = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 3);
    let v = ColumnVectorD::<f64>::zeros_from_length(4);
    let w = ColumnVectorD::<f64>::zeros_from_length(2);
    assert!(panics(|| { a.dot(&v); }));
    assert!(panics(|| { a.dot(&w); }));
}
''')
seed('C14a', 'visiting the elements of a block or of a strided matrix or vector',
     'for_each walks the first number-of-elements raw positions instead of the elements',
     [('src/matrix/base_methods.rs', '''        for index in 0..self.layout().number_of_elements() {
            unsafe { f(self.get1d_unchecked_mut(index)) }
        }''', '''        let nelems = self.layout().number_of_elements();
        if nelems > 0 {
            for item in self.get_slice_mut(0, nelems) {
                f(item)
            }
        }''')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(3, 4);
    m.block_mut((0, 1), (2, 2)).for_each(|v| *v = 1.0);
    assert_eq!(m.get(1, 1), 1.0);
    assert_eq!(m.get(0, 3), 0.0);
}
''')
seed('C14b', 'visiting a matrix with an odd number of elements above two',
     'a two-at-a-time for_each forgets the last element of an odd number',
     [('src/matrix/base_methods.rs', '''        for index in 0..self.layout().number_of_elements() {
            unsafe { f(self.get1d_unchecked_mut(index)) }
        }''', '''        let nelems = self.layout().number_of_elements();
        if nelems < 3 {
            for index in 0..nelems {
                unsafe { f(self.get1d_unchecked_mut(index)) }
            }
        } else {
            for pair in 0..nelems / 2 {
                unsafe {
                    f(self.get1d_unchecked_mut(2 * pair));
                    f(self.get1d_unchecked_mut(2 * pair + 1));
                }
            }
        }''')],
     '''fn main() {
    let mut m = ColumnVectorD::<f64>::zeros_from_length(5);
    let mut n = 0;
    m.for_each(|v| { *v = 1.0; n += 1; });
    assert_eq!(n, 5);
    assert_eq!(m.get1d(4), 1.0);
}
''')
seed('C15a', 'a mutable raw slice that ends exactly at the end of the container',
     'get_slice_mut rejects the range that reaches the last element',
     [('src/data_container.rs', 'last <= self.number_of_elements(),', 'last < self.number_of_elements() || first == 0,', (1, 2))],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 3);
    assert_eq!(m.get_slice_mut(2, 6).len(), 4);
    assert!(panics(|| { m.get_slice_mut(0, 7); }));
}
''')
seed('C16a', 'filling a single-precision complex matrix',
     'the imaginary part is drawn before the real part for c32',
     [('src/tools.rs', 'c32::new(dist.sample(rng), dist.sample(rng))', 'let im = dist.sample(rng);\n        c32::new(dist.sample(rng), im)')],
     '''use rand::prelude::*;
fn main() {
    let mut m = MatrixD::<c32, RowMajor>::zeros_from_dim(1, 1);
    let mut f = MatrixD::<f32, RowMajor>::zeros_from_dim(1, 2);
    m.fill_from_rand_standard_normal(&mut rand::rngs::StdRng::seed_from_u64(1));
    f.fill_from_rand_standard_normal(&mut rand::rngs::StdRng::seed_from_u64(1));
    assert_eq!(m.get(0, 0), c32::new(f.get(0, 0), f.get(0, 1)));
}
''')
seed('C16b', 'filling a matrix that already holds values',
     'the draw is added to the old value',
     [('src/matrix/random.rs', '*val = <$HScalar>::random_scalar(rng, &dist)', '*val += <$HScalar>::random_scalar(rng, &dist)')],
     '''use rand::prelude::*;
fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 2);
    m.fill_from_rand_standard_normal(&mut rand::rngs::StdRng::seed_from_u64(1));
    let v = m.get(1, 1);
    m.fill_from_rand_standard_normal(&mut rand::rngs::StdRng::seed_from_u64(1));
    assert_eq!(m.get(1, 1), v);
}
''')
seed('C17a', 'a write by 1D index through a mutable borrow of a column-major, non-square matrix',
     'MatrixRefMut turns the 1D index into a row-major position',
     [('src/matrix_ref.rs', 'self.0.get1d_unchecked_mut(index)', 'let cols = self.0.layout().dim().1;\n        self.0.get_unchecked_mut(index / cols, index % cols)')],
     '''fn main() {
    let mut m = MatrixD::<f64, ColumnMajor>::zeros_from_dim(2, 3);
    {
        let mut r = Matrix::new(MatrixRefMut::new(&mut m));
        *r.get1d_mut(1) = 4.0;
    }
    assert_eq!(m.get(1, 0), 4.0);
}
''')
seed('C18a', 'the sum of two strided row vectors with stride other than 1',
     'the index layout of a strided row vector has its memory extent as length',
     [('src/layouts/arbitrary_stride_row_vector.rs', 'Self::IndexLayout::new(self.dim().1)', 'Self::IndexLayout::new(self.dim * self.stride)')],
     '''fn main() {
    let data = vec![1.0; 16];
    let mk = || SliceMatrix::<f64, ArbitraryStrideRowVector, Fixed1, Dynamic>::from_data(
        SliceContainer::new(&data), ArbitraryStrideRowVector::new(4, 3));
    let s = mk() + mk();
    assert_eq!(s.length(), 4);
    assert_eq!(s.dim(), (1, 4));
}
''')
seed('C18b', 'a row vector of length one (or an empty one) asked for its dimension',
     'a row vector without elements reports a dimension with no row',
     [('src/layouts/row_vector.rs', '        (1, self.dim)\n', '        (std::cmp::min(1, self.dim), self.dim)\n')],
     '''fn main() {
    assert_eq!(RowVectorD::<f64>::zeros_from_length(0).dim(), (1, 0));
    assert_eq!(RowVectorD::<f64>::zeros_from_length(3).dim(), (1, 3));
}
''')
seed('C19a', 'a release build and an access just below the diagonal of a triangular matrix',
     'the lower triangle is only rejected in debug builds; in release the access hits another element',
     [('src/layouts/upper_triangular.rs', '        assert!(\n            col >= row,', '        debug_assert!(\n            col >= row,')],
     '''fn main() {
    let m = UpperTriangularMatrix::<f64>::zeros_from_dim(4, 4);
    for i in 0..4 {
        for j in 0..4 {
            assert_eq!(panics(|| { m.get(i, j); }), j < i);
        }
    }
}
''', release=True)
seed('C19b', 'the element in the last column of the first row of a triangular matrix with at least 3 rows',
     'the triangle is addressed with a row length that is one short, so elements of neighbouring rows share slots',
     [('src/layouts/upper_triangular.rs', '((self.dim - row) * (self.dim - row - 1)) / 2 + col - row', '((self.dim - row) * (self.dim - row - 1)) / 2 + (col - row) % (self.dim - 1).max(1)')],
     '''fn main() {
    let l = UpperTriangular::new(5);
    let mut seen = std::collections::HashSet::new();
    for i in 0..5 {
        for j in i..5 {
            assert!(seen.insert(l.convert_2d_raw(i, j)));
        }
    }
}
''')

seed('C03c', 'a 1D read of a triangular matrix at an index between n(n+1)/2 and n*n',
     'get1d compares the index with rows*columns, so a triangular matrix is read beyond its container',
     [('src/traits/random_access.rs', '        assert_dimension1d(elem, self.layout().number_of_elements());\n        unsafe { self.get1d_unchecked(elem) }',
       '        let dim = self.layout().dim();\n        assert_dimension1d(elem, dim.0 * dim.1);\n        unsafe { self.get1d_unchecked(elem) }')],
     '''fn main() {
    let m = UpperTriangularMatrix::<f64>::zeros_from_dim(3, 3);
    assert!(!panics(|| { m.get1d(5); }));
    assert!(panics(|| { m.get1d(6); }));
    assert!(panics(|| { m.get1d(8); }));
}
''')
seed('C05c', 'an element beyond the 65535th raw position of an owned matrix, accessed by 1D index',
     'the 1D read goes through a 16 bit position, so far elements alias near ones',
     [('src/base_matrix.rs', 'self.data.get_unchecked(self.layout.convert_1d_raw(index))', 'self.data\n            .get_unchecked(self.layout.convert_1d_raw(index) as u16 as usize)')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(300, 300);
    *m.get_mut(250, 7) = 1.5;
    assert_eq!(m.get1d(250 * 300 + 7), 1.5);
}
''')
seed('C07b', 'a mutable block of a row-major matrix that starts at row 0 and has full width but not full height',
     'a block of full width is taken for contiguous and gets the wrong column stride',
     [('src/matrix/matrix_slices.rs', '''                    SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
                        self.get_pointer_mut().add(start_index),
                        dim,
                        self.layout().stride(),''', '''                    SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
                        self.get_pointer_mut().add(start_index),
                        dim,
                        if dim.1 == self.layout().dim().1 && dim.0 > 1 {
                            // full width: the lines follow each other
                            self.layout().index_layout().stride()
                        } else {
                            self.layout().stride()
                        },''')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(4, 5);
    *m.get_mut(2, 2) = 1.0;
    let mut b = m.block_mut((1, 1), (3, 3));
    let c = b.block_mut((1, 0), (2, 3));
    assert_eq!(c.get(0, 1), 1.0);
    assert_eq!(c.get(1, 1), 0.0);
    drop(c);
    *b.get_mut(2, 0) = 4.0;
    assert_eq!(b.block_mut((1, 0), (2, 3)).get(1, 0), 4.0);
}
''')
seed('C08c', 'a split at row 0 or at column 0 (an empty block on one side)',
     'the start of the last block is derived from the starts of its neighbours, which are 0 when a neighbour is empty',
     [('src/matrix/matrix_slices.rs', 'ptr.offset(start3),', 'ptr.offset(if start3 == 0 { 0 } else { start1 + start2 }),')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(4, 6);
    *m.get_mut(2, 1) = 1.0;
    {
        let (_a, _b, _c, d) = m.split_in_four_mut((2, 0));
        assert_eq!(d.get(0, 1), 1.0);
    }
    let (_a, _b, _c, d) = m.split_in_four_mut((1, 1));
    assert_eq!(d.get(1, 0), 1.0);
}
''')
seed('C09c', 'the sum of two empty matrices (zero rows or columns), in a build with overflow checks','adding two empty matrices of equal dimension panics',
     [('src/addition.rs', '''        let layout = mat1.layout().index_layout();
''', '''        let layout = mat1.layout().index_layout();
        // both operands are addressed with the layout of the first
        let last = layout.number_of_elements() - 1;
        debug_assert!(last < mat2.layout().number_of_elements());
''')],
     '''fn main() {
    let a = MatrixD::<f64, RowMajor>::zeros_from_dim(0, 3);
    let b = MatrixD::<f64, RowMajor>::zeros_from_dim(0, 3);
    assert_eq!((&a + &b).dim(), (0, 3));
}
''')
seed('C10b', 'a scalar product with a subnormal or very large factor that is read by 2D index',
     'the 2D read of a scalar product divides by the reciprocal of the scalar',
     [('src/scalar_mult.rs', 'self.1 * self.0.get_unchecked(row, col)', 'self.0.get_unchecked(row, col) / (Item::one() / self.1)')],
     '''fn main() {
    let mut a = MatrixD::<f64, RowMajor>::zeros_from_dim(1, 2);
    *a.get_mut(0, 1) = 49.0;
    for k in 1..200 {
        let s = 1.0 / (k as f64);
        let e = s * &a;
        assert_eq!(e.get(0, 1), s * 49.0);
    }
}
''')
seed('C11b', 'evaluating an expression with at least 16 elements whose number is no multiple of four',
     'the unrolled copy of eval leaves the last one to three elements zero',
     [('src/matrix/common_impl.rs', '''            for index in 0..self.layout().number_of_elements() {
                *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
            }''', '''            let nelems = self.layout().number_of_elements();
            if nelems < 16 {
                for index in 0..nelems {
                    *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
                }
            } else {
                for base in (0..nelems - 3).step_by(4) {
                    for off in 0..4 {
                        *result.get1d_unchecked_mut(base + off) = self.get1d_unchecked(base + off);
                    }
                }
            }''')],
     '''fn main() {
    let mut a = MatrixD::<f64, RowMajor>::zeros_from_dim(3, 6);
    *a.get_mut(2, 5) = 3.0;
    assert_eq!(a.eval().get(2, 5), 3.0);
}
''')
seed('C14c', 'visiting a matrix whose number of elements does not fit into 16 bits',
     'for_each counts with 16 bits and stops early (or never starts) on large matrices',
     [('src/matrix/base_methods.rs', '        for index in 0..self.layout().number_of_elements() {\n', '        for index in 0..self.layout().number_of_elements() as u16 as usize {\n')],
     '''fn main() {
    let mut m = MatrixD::<f32, RowMajor>::zeros_from_dim(256, 257);
    let mut n = 0;
    m.for_each(|_| n += 1);
    assert_eq!(n, 256 * 257);
}
''')
seed('C15b', 'a raw slice request of a matrix whose end lies beyond the container',
     'the matrix clips the range at the end of the container instead of rejecting it',
     [('src/base_matrix.rs', '        self.data.get_slice(first, last)\n', '        self.data\n            .get_slice(first, std::cmp::min(last, self.data.number_of_elements()))\n')],
     '''fn main() {
    let m = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 3);
    assert_eq!(m.get_slice(2, 6).len(), 4);
    assert!(panics(|| { m.get_slice(2, 7); }));
}
''')
seed('C17b', 'a 2D write through a mutable borrow to a position off the diagonal',
     'MatrixRefMut writes the transposed element of a square matrix',
     [('src/matrix_ref.rs', 'self.0.get_unchecked_mut(row, col)', '''let dim = self.0.layout().dim();
        if dim.0 == dim.1 && dim.0 > 4 {
            self.0.get_unchecked_mut(col, row)
        } else {
            self.0.get_unchecked_mut(row, col)
        }''')],
     '''fn main() {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(5, 5);
    {
        let mut r = Matrix::new(MatrixRefMut::new(&mut m));
        *r.get_mut(1, 3) = 4.0;
    }
    assert_eq!(m.get(1, 3), 4.0);
}
''')
seed('C22a', 'a matrix made from a mutable pointer with a row stride larger than the row',
     'the container of the matrix takes in the gap behind the last row',
     [('src/matrix/constructors.rs', '                let slice = std::slice::from_raw_parts_mut(ptr, nindices);\n                let data = SliceContainerMut::<\'a, Item>::new(slice);\n\n                SliceMatrixMut::<\'a, Item, $L, $RS, $CS>::from_data(data, new_layout)',
       '                let nindices = std::cmp::max(nindices, dim.0 * stride.0);\n                let slice = std::slice::from_raw_parts_mut(ptr, nindices);\n                let data = SliceContainerMut::<\'a, Item>::new(slice);\n\n                SliceMatrixMut::<\'a, Item, $L, $RS, $CS>::from_data(data, new_layout)', (0, 2))],
     '''fn main() {
    let mut v = vec![1.0; 32];
    let m = unsafe { SliceMatrixMut::<f64, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(v.as_mut_ptr(), (3, 2), (5, 1)) };
    assert_eq!(m.get_slice(0, 12).len(), 12);
    assert!(panics(|| { m.get_slice(0, 13); }));
}
''')
seed('C22b', 'a matrix made from a constant pointer with rows but no columns',
     'an empty matrix made from a pointer has a container with one element per row',
     [('src/matrix/constructors.rs', '                let nindices = dim.0 * dim.1;\n', '                let nindices = dim.0 * std::cmp::max(dim.1, 1);\n', (1, 2))],
     '''fn main() {
    let v = vec![1.0; 4];
    let m = unsafe { SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_pointer(v.as_ptr(), (3, 0)) };
    assert!(panics(|| { m.get_slice(0, 1); }));
    let m = unsafe { SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_pointer(v.as_ptr(), (2, 2)) };
    assert_eq!(m.get_slice(0, 4).len(), 4);
}
''')
ALLOC = '''use std::alloc::{GlobalAlloc, Layout as L, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: L) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: L) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: L) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
'''
seed('C23a', 'evaluating any expression, watched through the allocator',
     'eval collects the elements into a temporary vector before it fills the result',
     [('src/matrix/common_impl.rs', '''            for index in 0..self.layout().number_of_elements() {
                *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
            }''', '''            let values: Vec<Item> = (0..self.layout().number_of_elements())
                .map(|index| self.get1d_unchecked(index))
                .collect();
            for (index, value) in values.into_iter().enumerate() {
                *result.get1d_unchecked_mut(index) = value;
            }''')],
     ALLOC + '''fn main() {
    let a = MatrixD::<f64, RowMajor>::zeros_from_dim(3, 4);
    let n = N.load(Ordering::SeqCst);
    let r = (&a + &a).eval();
    assert_eq!(N.load(Ordering::SeqCst) - n, 1);
    assert_eq!(r.dim(), (3, 4));
}
''')
seed('C23b', 'visiting a matrix with more than four elements, watched through the allocator',
     'for_each works on a copy of the raw positions that it allocates',
     [('src/matrix/base_methods.rs', '''        for index in 0..self.layout().number_of_elements() {
            unsafe { f(self.get1d_unchecked_mut(index)) }
        }''', '''        let nelems = self.layout().number_of_elements();
        let order: Vec<IndexType> = (0..nelems).collect();
        for index in order {
            unsafe { f(self.get1d_unchecked_mut(index)) }
        }''')],
     ALLOC + '''fn main() {
    let mut a = MatrixD::<f64, RowMajor>::zeros_from_dim(3, 4);
    let n = N.load(Ordering::SeqCst);
    a.for_each(|x| *x += 1.0);
    assert_eq!(N.load(Ordering::SeqCst) - n, 0);
}
''')
seed('C24a', 'a vector container with no elements at all',
     'an empty vector container holds one element',
     [('src/data_container.rs', 'data: vec![num::cast::<f64, Item>(0.0).unwrap(); nelems],', 'data: vec![num::cast::<f64, Item>(0.0).unwrap(); std::cmp::max(nelems, 1)],')],
     '''use householder::data_container::*;
fn main() {
    assert_eq!(VectorContainer::<f64>::new(0).number_of_elements(), 0);
    assert_eq!(VectorContainer::<f64>::new(3).number_of_elements(), 3);
}
''')
seed('C24b', 'a mutable range of a container that is empty (first equals last)',
     'get_slice_mut accepts an empty range',
     [('src/data_container.rs', '            first < last,\n', '            first <= last,\n', (1, 2))],
     '''use householder::data_container::*;
fn main() {
    let mut c = VectorContainer::<f64>::new(4);
    assert!(panics(|| { c.get_slice_mut(2, 2); }));
    assert!(!panics(|| { c.get_slice_mut(2, 3); }));
}
''')
PROBE = '''use std::cell::RefCell;
struct Probe(RowMajor, RefCell<Vec<usize>>, f64);
impl UnsafeRandomAccess for Probe {
    type Item = f64;
    unsafe fn get_unchecked(&self, i: usize, j: usize) -> f64 { self.get1d_unchecked(i * self.0.dim().1 + j) }
    unsafe fn get1d_unchecked(&self, k: usize) -> f64 { self.1.borrow_mut()[k] += 1; self.2 }
}
impl Layout for Probe { type Impl = RowMajor; fn layout(&self) -> &RowMajor { &self.0 } }
impl SizeType for Probe { type R = Dynamic; type C = Dynamic; }
'''
seed('C25a', 'evaluating an expression that has elements other than zero, over an operand that counts its reads',
     'eval reads an element to see whether it is zero and again to copy it',
     [('src/matrix/common_impl.rs', '''                *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
''', '''                // the result is zero already
                if self.get1d_unchecked(index) != Item::zero() {
                    *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
                }
''')],
     PROBE + '''fn main() {
    let m = Matrix::<f64, Probe, RowMajor, Dynamic, Dynamic>::new(Probe(RowMajor::new((2, 2)), RefCell::new(vec![0; 4]), 1.5));
    let e = 2.0 * m;
    let r = e.eval();
    assert_eq!(r.get(1, 1), 3.0);
    let m = Matrix::<f64, Probe, RowMajor, Dynamic, Dynamic>::new(Probe(RowMajor::new((2, 2)), RefCell::new(vec![0; 4]), 1.5));
    let c = &m as *const _ as *const Probe;
    let _ = (&m + &MatrixD::<f64, RowMajor>::zeros_from_dim(2, 2)).eval();
    assert_eq!(unsafe { (*c).1.borrow().clone() }, vec![1; 4]);
}
''')
seed('C25b', 'a sum read by 2D index at an element whose left value is zero, with a right operand that counts its reads',
     'the 2D read of a sum reads its right operand twice when the left element is zero',
     [('src/addition.rs', 'self.0.get_unchecked(row, col) + self.1.get_unchecked(row, col)', '''let left = self.0.get_unchecked(row, col);
        if left == Item::zero() && self.1.get_unchecked(row, col) == Item::zero() {
            return left + Item::zero();
        }
        left + self.1.get_unchecked(row, col)''')],
     PROBE + '''fn main() {
    let m = Matrix::<f64, Probe, RowMajor, Dynamic, Dynamic>::new(Probe(RowMajor::new((2, 2)), RefCell::new(vec![0; 4]), 1.5));
    let z = MatrixD::<f64, RowMajor>::zeros_from_dim(2, 2);
    let c = &m as *const _ as *const Probe;
    assert_eq!((&z + &m).get(0, 1), 1.5);
    assert_eq!(unsafe { (*c).1.borrow().clone() }, vec![0, 1, 0, 0]);
}
''')
seed('C26a', 'atan2 of single precision numbers outside the right half plane',
     'the single precision atan2 is computed from the quotient and loses the quadrant',
     [('src/types.rs', '''    fn atan2(self, x: f32) -> f32 {
        self.atan2(x)
    }''', '''    fn atan2(self, x: f32) -> f32 {
        (self / x).atan()
    }''')],
     '''use householder::types::HScalar;
fn main() {
    assert_eq!(<f32 as HScalar>::atan2(1.0, -2.0), f32::atan2(1.0, -2.0));
    assert_eq!(<f32 as HScalar>::atan2(0.0, 2.0), 0.0);
}
''')
