"""Behaviour-preserving edits: every check has to stay quiet (exit 0) on each of them.
usage: refactors.py list | diff ID | run [ID...]   (run applies to /repo, runs the checks named, undoes)"""
import os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def ref(id, checks, *edits):
    R.append((id, checks.split(), edits))


ref('scalar_commute', 'C10 C11 C17 C03 C19 C23',
    ('src/scalar_mult.rs', 'self.1 * self.0.get_unchecked(row, col)', 'let value = self.0.get_unchecked(row, col);\n        value * self.1'),
    ('src/scalar_mult.rs', 'self.1 * self.0.get1d_unchecked(index)', 'let value = self.0.get1d_unchecked(index);\n        value * self.1'))
ref('add_locals', 'C09 C11 C17 C18 C19 C23',
    ('src/addition.rs', 'self.0.get_unchecked(row, col) + self.1.get_unchecked(row, col)',
     'let right = self.1.get_unchecked(row, col);\n        let left = self.0.get_unchecked(row, col);\n        left + right'),
    ('src/addition.rs', '''        let layout = mat1.layout().index_layout();
        Self(''', '''        let layout = mat2.layout().index_layout();
        Self('''),
    ('src/addition.rs', '''        assert_eq!(
            mat1.layout().dim(),
            mat2.layout().dim(),
            "Dimensions not''', '''        let (dim1, dim2) = (mat1.layout().dim(), mat2.layout().dim());
        assert!(
            dim1.0 == dim2.0 && dim1.1 == dim2.1,
            "Dimensions not'''))
ref('eval_while', 'C11 C19 C23 C17',
    ('src/matrix/common_impl.rs', '''            for index in 0..self.layout().number_of_elements() {
                *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
            }''', '''            let nelems = self.layout().number_of_elements();
            let mut index = 0;
            while index < nelems {
                let value = self.get1d_unchecked(index);
                *result.get1d_unchecked_mut(index) = value;
                index += 1;
            }'''))
ref('eval_iter', 'C11 C19 C23',
    ('src/matrix/common_impl.rs', '''        unsafe {
            for index in 0..self.layout().number_of_elements() {
                *result.get1d_unchecked_mut(index) = self.get1d_unchecked(index);
            }
        }''', '''        (0..self.layout().number_of_elements()).for_each(|index| *result.get1d_mut(index) = self.get1d(index));'''))
ref('eval_back', 'C11 C19 C23',
    ('src/matrix/common_impl.rs', '''            for index in 0..self.layout().number_of_elements() {''', '''            for index in (0..self.layout().number_of_elements()).rev() {'''))
ref('each_while', 'C14 C16 C23',
    ('src/matrix/base_methods.rs', '''        for index in 0..self.layout().number_of_elements() {
            unsafe { f(self.get1d_unchecked_mut(index)) }
        }''', '''        let nelems = self.layout().number_of_elements();
        let mut index = 0;
        while index < nelems {
            let elem = unsafe { self.get1d_unchecked_mut(index) };
            f(elem);
            index += 1;
        }'''))
ref('each_2d', 'C14 C16 C23',
    ('src/matrix/base_methods.rs', '''            unsafe { f(self.get1d_unchecked_mut(index)) }''', '''            let (row, col) = self.layout().convert_1d_2d(index);
            unsafe { f(self.get_unchecked_mut(row, col)) }'''))
ref('zeros_collect', 'C06 C11 C13 C24 C23',
    ('src/data_container.rs', 'data: vec![num::cast::<f64, Item>(0.0).unwrap(); nelems],', 'data: std::iter::repeat(Item::zero()).take(nelems).collect(),'))
ref('zeros_resize', 'C06 C11 C13 C24 C23',
    ('src/data_container.rs', '''        VectorContainer::<Item> {
            data: vec![num::cast::<f64, Item>(0.0).unwrap(); nelems],
        }''', '''        let mut data = Vec::with_capacity(nelems);
        data.resize(nelems, Item::zero());
        VectorContainer::<Item> { data }'''))
ref('layout_inline', 'C01 C02 C03 C05 C09 C11 C14',
    ('src/layouts/arbitrary_stride_row_major.rs', '        let (row, col) = self.convert_1d_2d(index);\n        self.convert_2d_raw(row, col)\n',
     '        let (rs, cs) = self.stride;\n        let row = index / self.dim.1;\n        row * rs + (index - row * self.dim.1) * cs\n'),
    ('src/layouts/arbitrary_stride_column_major.rs', '        let (row, col) = self.convert_1d_2d(index);\n        self.convert_2d_raw(row, col)\n',
     '        let col = index / self.dim.0;\n        let row = index - col * self.dim.0;\n        self.stride.0 * row + self.stride.1 * col\n'))
ref('tri_loop', 'C01 C19 C11 C17',
    ('src/layouts/upper_triangular.rs', '''        let p = -0.5 + f64::sqrt(0.25 + 2.0 * (index as f64));
        let p = f64::floor(p) as IndexType;
''', '''        let mut p = 0;
        while (p + 1) * (p + 2) / 2 <= index {
            p += 1;
        }
'''))
ref('tri_row', 'C01 C02 C19 C11 C17 C03 C04',
    ('src/layouts/upper_triangular.rs', '((self.dim - row) * (self.dim - row - 1)) / 2 + col - row', 'let below = self.dim - 1 - row;\n        below * (below + 1) / 2 + (col - row)'),
    ('src/layouts/upper_triangular.rs', '''        let p = f64::floor(p) as IndexType;
        (
            self.dim - 1 - p,
            self.dim - 1 - p + index - (p * (p + 1)) / 2,
        )''', '''        let p = p as IndexType;
        let row = self.dim - 1 - p;
        (row, row + (index - p * (p + 1) / 2))'''))
ref('mm_helper', 'C12 C13',
    ('src/matrix_multiply.rs', '(dim1.1 == dim2.0) & (dim3.0 == dim1.0) & (dim3.1 == dim2.1),', '(dim1.1 == dim2.0) && dim3 == (dim1.0, dim2.1),', (0, 2)),
    ('src/matrix_multiply.rs', '(dim1.1 == dim2.0) & (dim3.0 == dim1.0) & (dim3.1 == dim2.1),', 'compatible(dim1, dim2, dim3),', (0, 1)),
    ('src/matrix_multiply.rs', 'macro_rules! matmul_impl {', '''fn compatible(
    a: (IndexType, IndexType),
    b: (IndexType, IndexType),
    c: (IndexType, IndexType),
) -> bool {
    a.1 == b.0 && c.0 == a.0 && c.1 == b.1
}

macro_rules! matmul_impl {'''),
    ('src/matrix_multiply.rs', '''                let rsa = mat_a.layout().stride().0 as isize;
                let csa = mat_a.layout().stride().1 as isize;
''', '''                let (rsa, csa) = mat_a.layout().stride();
                let (rsa, csa) = (rsa as isize, csa as isize);
''', (0, 1)))
ref('mm_empty', 'C12 C13',
    ('src/matrix_multiply.rs', '''                let m = dim1.0 as usize;
                let k = dim1.1 as usize;
''', '''                if dim3.0 == 0 || dim3.1 == 0 {
                    return;
                }
                let m = dim1.0 as usize;
                let k = dim1.1 as usize;
'''))
ref('slice_index', 'C04 C05 C15 C24 C08',
    ('src/data_container.rs', '''        assert!(
            last <= self.number_of_elements(),
            "Value of 'last' {} must be smaller or equal to the number of elements {}.",
            last,
            self.number_of_elements()
        );

        unsafe { std::slice::from_raw_parts(self.get_pointer().add(first), last - first) }''',
     '''        let all = unsafe { std::slice::from_raw_parts(self.get_pointer(), self.number_of_elements()) };
        &all[first..last]'''))
ref('block_checked', 'C07 C08 C04',
    ('src/matrix/matrix_slices.rs', '''        (top_left.0 <= mat_dim.0)
            && (dim.0 <= mat_dim.0 - top_left.0)
            && (top_left.1 <= mat_dim.1)
            && (dim.1 <= mat_dim.1 - top_left.1),''', '''        matches!(
            (top_left.0.checked_add(dim.0), top_left.1.checked_add(dim.1)),
            (Some(rows), Some(cols)) if rows <= mat_dim.0 && cols <= mat_dim.1
        ),'''))
ref('split_helper', 'C08 C12',
    ('src/matrix/matrix_slices.rs', '''                let dim3 = (dim.0 - split_at.0, dim.1 - split_at.1);
''', '''                let (rest_rows, rest_cols) = (dim2.0, dim1.1);
                let dim3 = (rest_rows, rest_cols);
'''),
    ('src/matrix/matrix_slices.rs', '''ptr.offset(start3),''', '''ptr.wrapping_offset(start3),'''))
ref('rand_loop', 'C16',
    ('src/matrix/random.rs', '''                self.for_each(|val| *val = <$HScalar>::random_scalar(rng, &dist));''', '''                for index in 0..self.layout().number_of_elements() {
                    let draw = <$HScalar>::random_scalar(rng, &dist);
                    unsafe { *self.get1d_unchecked_mut(index) = draw };
                }'''),
    ('src/tools.rs', 'c64::new(dist.sample(rng), dist.sample(rng))', 'let re = dist.sample(rng);\n        let im = dist.sample(rng);\n        c64 { re, im }'))
ref('ref_forward', 'C17 C09 C10 C05',
    ('src/matrix_ref.rs', 'self.0.get1d_unchecked(index)', 'let inner: &Matrix<Item, MatImpl, L, RS, CS> = self.0;\n                inner.get1d_unchecked(index)'))
ref('bounds_if', 'C03 C04 C05 C17 C19 C07',
    ('src/traits/random_access.rs', '''    assert!(
        row < dim.0,
        "row {} out of bounds (dim: {}, {}",
        row,
        dim.0,
        dim.1
    );
    assert!(
        col < dim.1,
        "col {} out of bounds (dim: {}, {}",
        col,
        dim.0,
        dim.1
    );''', '''    let (rows, cols) = dim;
    if row >= rows || col >= cols {
        panic!("({}, {}) out of bounds (dim: {}, {}", row, col, rows, cols);
    }'''))
ref('dot_helper', 'C13 C23',
    ('src/matrix_multiply.rs', '''                let mut res =
                    Self::Output::zeros_from_dim(self.layout().dim().0, rhs.layout().dim().1);
''', '''                let (rows, inner) = self.layout().dim();
                assert_eq!(inner, rhs.layout().dim().0, "incompatible inner dimensions");
                let mut res = Self::Output::zeros_from_dim(rows, rhs.layout().dim().1);
''', 3))
ref('base_match', 'C03 C04 C05 C06 C07 C22',
    ('src/base_matrix.rs', '''        let required = layout.required_elements();
        assert!(
            required.map_or(false, |n| n <= data.number_of_elements()),
            "Number of elements in data: {}. But layout requires {:?}",
            data.number_of_elements(),
            required,
        );''', '''        let available = data.number_of_elements();
        match layout.required_elements() {
            Some(n) if n <= available => (),
            required => panic!(
                "Number of elements in data: {}. But layout requires {:?}",
                available, required
            ),
        }'''),
    ('src/base_matrix.rs', '''        self.data
            .get_unchecked(self.layout.convert_2d_raw(row, col))''', '''        let raw = self.layout.convert_2d_raw(row, col);
        *self.data.get_pointer().add(raw)'''))
ref('ctor_layout', 'C06 C11 C13 C18',
    ('src/matrix/constructors.rs', '''            VectorContainer::<Item>::new(layout.number_of_elements()),
            L::from_dimension((rows, cols)),''', '''            VectorContainer::<Item>::new(layout.number_of_elements()),
            layout,'''),
    ('src/matrix/constructors.rs', '''        Self::from_data(
            VectorContainer::<Item>::new(cols),
            RowVector::from_length(cols),
        )''', '''        Self::zeros_from_length(cols)'''))
ref('ptr_extent', 'C22 C07 C08',
    ('src/matrix/constructors.rs', '''                let nindices = if dim.0 == 0 || dim.1 == 0 {
                    0
                } else {
                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
                };''', '''                let nindices = match dim {
                    (0, _) | (_, 0) => 0,
                    (rows, cols) => (rows - 1) * stride.0 + (cols - 1) * stride.1 + 1,
                };''', 2))


def build(id):
    for i, checks, edits in R:
        if i == id:
            for f, old, new, *cnt in edits:
                p = os.path.join('/repo', f)
                t = open(p).read()
                n = t.count(old)
                want = cnt[0] if cnt else 1
                if isinstance(want, tuple):
                    k, of = want
                    assert n == of, (id, f, n)
                    parts = t.split(old)
                    t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                else:
                    assert n == want, (id, f, 'occurs', n)
                    t = t.replace(old, new)
                open(p, 'w').write(t)
            return checks


def undo():
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])


if sys.argv[1] == 'list':
    print(*[r[0] for r in R])
elif sys.argv[1] == 'test':
    for i, c, e in R:
        if len(sys.argv) > 2 and i not in sys.argv[2:]:
            continue
        try:
            build(i)
            r = subprocess.run('cargo test --offline --target-dir /tmp/reftarget 2>&1 | grep -E "^error|test result|FAILED" | head -3', shell=True, cwd='/repo', capture_output=True, text=True)
            print(i, r.stdout.replace('\n', ' | '), flush=True)
        finally:
            undo()
elif sys.argv[1] == 'run':
    for i, c, e in R:
        if len(sys.argv) > 2 and i not in sys.argv[2:]:
            continue
        try:
            build(i)
            for k in c:
                t = time.time()
                r = subprocess.run(['python3-vt', V + '/engine/check.py', k], capture_output=True, text=True)
                out = r.stdout + r.stderr
                print(i, k, 'exit', r.returncode, '%ds' % (time.time() - t), '' if r.returncode == 0 else out[-1500:], flush=True)
        finally:
            undo()
