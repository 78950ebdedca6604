use rand::{CryptoRng, RngCore};

use crate::errors::{SerzDeserzError, ValueError};
use crate::field_elem::{FieldElement, FieldElementVector};

use std::slice::Iter;

#[macro_export]
macro_rules! add_group_elems {
    ( $( $elem:expr ),* ) => {
        {
            let mut sum = GroupElement::new();
            $(
                sum += $elem;
            )*
            sum
        }
    };
}

pub trait GroupElement: Clone + Sized {
    fn new() -> Self;

    /// Return the identity element
    fn identity() -> Self;

    /// Return a group generator.
    fn generator() -> Self;

    /// Return a random group element
    fn random() -> Self {
        let n = FieldElement::random();
        Self::generator().scalar_mul_const_time(&n)
    }

    /// Return a random group element using the given random number generator
    fn random_using_rng<R: RngCore + CryptoRng>(rng: &mut R) -> Self {
        let n = FieldElement::random_using_rng(rng);
        Self::generator().scalar_mul_const_time(&n)
    }

    /// Check if the the point is the identity element of the group
    fn is_identity(&self) -> bool;

    /// Set the point to the identity element of the group
    fn set_to_identity(&mut self);

    /// Hash an arbitrary sized message using SHAKE and return output as group element
    fn from_msg_hash(msg: &[u8]) -> Self;

    fn to_bytes(&self) -> Vec<u8>;

    fn from_bytes(bytes: &[u8]) -> Result<Self, SerzDeserzError>;

    /// Add a group element to itself. `self = self + b`
    fn add_assign_(&mut self, b: &Self);

    /// Subtract a group element from itself. `self = self - b`
    fn sub_assign_(&mut self, b: &Self);

    /// Return sum of a group element and itself. `self + b`
    fn plus(&self, b: &Self) -> Self;

    /// Return difference of a group element and itself. `self - b`
    fn minus(&self, b: &Self) -> Self;

    /// Multiply point on the curve (element of group G1) with a scalar. Constant time operation.
    /// self * field_element_a.
    fn scalar_mul_const_time(&self, a: &FieldElement) -> Self;

    /// Return the double of the group element
    fn double(&self) -> Self;

    fn double_mut(&mut self);

    /// Returns hex string as a sequence of FPs separated by whitespace.
    /// Each FP is itself a 2-tuple of strings separated by whitespace, 1st string is the excess and 2nd is a BigNum
    fn to_hex(&self) -> String;

    /// Returns a group element by parsing the hex representation of itself. The hex
    /// representation should match the one from `to_hex`
    fn from_hex(s: String) -> Result<Self, SerzDeserzError>;

    /// Returns negation of this element
    fn negation(&self) -> Self;

    fn is_extension() -> bool;

    /// Checks if the element has correct order by checking if self *  group order (curve order) == Identity element (point at infinity).
    /// Uses constant time scalar multiplication.
    /// Question: But since we always know the multiplicand (group order) is there a faster way?
    fn has_correct_order(&self) -> bool;

    // TODO: Implement has_correct_order for variable time as well. Need to implement variable time scalar multiplication for group G2.
}

#[macro_export]
macro_rules! impl_group_elem_conversions {
    ( $group_element:ident, $group:ident, $group_size:ident ) => {
        impl From<$group> for $group_element {
            fn from(x: $group) -> Self {
                Self { value: x }
            }
        }

        impl From<&$group> for $group_element {
            fn from(x: &$group) -> Self {
                Self { value: x.clone() }
            }
        }

        impl From<&[u8; $group_size]> for $group_element {
            fn from(x: &[u8; $group_size]) -> Self {
                Self {
                    value: $group::frombytes(x),
                }
            }
        }

        impl Hash for $group_element {
            fn hash<H: Hasher>(&self, state: &mut H) {
                state.write(&self.to_bytes())
            }
        }
    };
}

#[macro_export]
macro_rules! impl_group_elem_traits {
    ( $group_element:ident, $group:ident ) => {
        impl Default for $group_element {
            fn default() -> Self {
                Self::new()
            }
        }

        impl fmt::Display for $group_element {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let mut c = self.value.clone();
                write!(f, "{}", c.tostring())
            }
        }

        impl Serialize for $group_element {
            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
            where
                S: Serializer,
            {
                serializer.serialize_newtype_struct("$group_element", &self.to_hex())
            }
        }

        impl<'a> Deserialize<'a> for $group_element {
            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
            where
                D: Deserializer<'a>,
            {
                struct GroupElemVisitor;

                impl<'a> Visitor<'a> for GroupElemVisitor {
                    type Value = $group_element;

                    fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
                        formatter.write_str("expected $group_element")
                    }

                    fn visit_str<E>(self, value: &str) -> Result<$group_element, E>
                    where
                        E: DError,
                    {
                        Ok($group_element::from_hex(value.to_string()).map_err(DError::custom)?)
                    }
                }

                deserializer.deserialize_str(GroupElemVisitor)
            }
        }
    };
}

#[macro_export]
macro_rules! impl_group_elem_ops {
    ( $group_element:ident ) => {
        impl PartialEq for $group_element {
            fn eq(&self, other: &$group_element) -> bool {
                let l = self.clone();
                let mut r = other.clone();
                l.value.equals(&mut r.value)
            }
        }

        impl Eq for $group_element {}

        impl Add for $group_element {
            type Output = Self;

            fn add(self, other: Self) -> Self {
                self.plus(&other)
            }
        }

        impl Add<$group_element> for &$group_element {
            type Output = $group_element;

            fn add(self, other: $group_element) -> $group_element {
                self.plus(&other)
            }
        }

        impl<'a> Add<&'a $group_element> for $group_element {
            type Output = Self;
            fn add(self, other: &'a $group_element) -> Self {
                self.plus(other)
            }
        }

        impl<'a> Add<&'a $group_element> for &$group_element {
            type Output = $group_element;
            fn add(self, other: &'a $group_element) -> $group_element {
                self.plus(other)
            }
        }

        impl AddAssign for $group_element {
            fn add_assign(&mut self, other: Self) {
                self.add_assign_(&other)
            }
        }

        impl<'a> AddAssign<&'a $group_element> for $group_element {
            fn add_assign(&mut self, other: &'a $group_element) {
                self.add_assign_(other)
            }
        }

        impl Sub for $group_element {
            type Output = Self;

            fn sub(self, other: Self) -> Self {
                self.minus(&other)
            }
        }

        impl Sub<$group_element> for &$group_element {
            type Output = $group_element;

            fn sub(self, other: $group_element) -> $group_element {
                self.minus(&other)
            }
        }

        impl<'a> Sub<&'a $group_element> for $group_element {
            type Output = Self;
            fn sub(self, other: &'a $group_element) -> Self {
                self.minus(other)
            }
        }

        impl<'a> Sub<&'a $group_element> for &$group_element {
            type Output = $group_element;
            fn sub(self, other: &'a $group_element) -> $group_element {
                self.minus(other)
            }
        }

        impl Mul<FieldElement> for $group_element {
            type Output = Self;

            fn mul(self, other: FieldElement) -> Self {
                self.scalar_mul_const_time(&other)
            }
        }

        impl Mul<&FieldElement> for $group_element {
            type Output = Self;

            fn mul(self, other: &FieldElement) -> Self {
                self.scalar_mul_const_time(other)
            }
        }

        impl Mul<FieldElement> for &$group_element {
            type Output = $group_element;

            fn mul(self, other: FieldElement) -> $group_element {
                self.scalar_mul_const_time(&other)
            }
        }

        impl Mul<&FieldElement> for &$group_element {
            type Output = $group_element;

            fn mul(self, other: &FieldElement) -> $group_element {
                self.scalar_mul_const_time(other)
            }
        }

        impl Neg for $group_element {
            type Output = Self;

            fn neg(self) -> Self::Output {
                let mut t = self.to_ecp();
                t.neg();
                t.into()
            }
        }

        impl Neg for &$group_element {
            type Output = $group_element;

            fn neg(self) -> Self::Output {
                let mut t = self.to_ecp();
                t.neg();
                t.into()
            }
        }
    };
}

macro_rules! impl_scalar_mul_ops {
    ( $group_element:ident ) => {
        impl Mul<$group_element> for FieldElement {
            type Output = $group_element;

            fn mul(self, other: $group_element) -> $group_element {
                other.scalar_mul_const_time(&self)
            }
        }

        impl Mul<&$group_element> for FieldElement {
            type Output = $group_element;

            fn mul(self, other: &$group_element) -> $group_element {
                other.scalar_mul_const_time(&self)
            }
        }

        impl Mul<$group_element> for &FieldElement {
            type Output = $group_element;

            fn mul(self, other: $group_element) -> $group_element {
                other.scalar_mul_const_time(self)
            }
        }

        impl Mul<&$group_element> for &FieldElement {
            type Output = $group_element;

            fn mul(self, other: &$group_element) -> $group_element {
                other.scalar_mul_const_time(self)
            }
        }
    };
}

macro_rules! impl_group_element_lookup_table {
    ( $group_element:ident, $name:ident  ) => {
        pub struct $name([$group_element; 8]);

        impl $name {
            /// Given public A and odd x with 0 < x < 2^4, return x.A.
            pub fn select(&self, x: usize) -> &$group_element {
                debug_assert_eq!(x & 1, 1);
                debug_assert!(x < 16);

                &self.0[x / 2]
            }
        }

        impl<'a> From<&'a $group_element> for $name {
            fn from(A: &'a $group_element) -> Self {
                let mut Ai: [$group_element; 8] = [
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                    $group_element::new(),
                ];
                let A2 = A.double();
                Ai[0] = A.clone();
                for i in 0..7 {
                    Ai[i + 1] = &Ai[i] + &A2;
                }
                // Now Ai = [A, 3A, 5A, 7A, 9A, 11A, 13A, 15A]
                Self(Ai)
            }
        }
    };
}

macro_rules! impl_optmz_scalar_mul_ops {
    ( $group_element:ident, $group:ident, $lookup_table:ident ) => {
        impl $group_element {
            /// Return underlying elliptic curve point, ECP
            pub fn to_ecp(&self) -> $group {
                self.value.clone()
            }

            /// Multiply point on the curve (element of group G1) with a scalar. Variable time operation
            /// Uses wNAF.
            pub fn scalar_mul_variable_time(&self, a: &FieldElement) -> Self {
                // TODO: Optimization: Attach the lookup table to the struct
                self.scalar_mul_const_time(a)
            }

            /// Return multiples of itself. eg. Given `n`=5, returns self, 2*self, 3*self, 4*self, 5*self
            pub fn get_multiples(&self, n: usize) -> Vec<$group_element> {
                // TODO: Can use `selector` from ECP
                let mut res = vec![self.clone()];
                for i in 2..=n {
                    res.push(&res[i - 2] + self);
                }
                res
            }

            pub fn to_wnaf_lookup_table(&self, width: usize) -> $lookup_table {
                // Only supporting table of width 5 for now
                debug_assert_eq!(width, 5);
                $lookup_table::from(self)
            }

            pub fn wnaf_mul(table: &$lookup_table, wnaf: &[i8]) -> Self {
                let mut result = $group_element::identity();

                for n in wnaf.iter().rev() {
                    result = result.double();

                    let v = *n;
                    if v > 0 {
                        result = result + table.select(v as usize);
                    } else if v < 0 {
                        result = result - table.select(-v as usize);
                    }
                }

                result
            }
        }
    };
}

pub trait GroupElementVector<T>: Sized {
    fn new(size: usize) -> Self;

    fn with_capacity(capacity: usize) -> Self;

    fn as_slice(&self) -> &[T];

    fn len(&self) -> usize;

    fn push(&mut self, value: T);

    fn append(&mut self, other: &mut Self);

    fn pop(&mut self) -> Option<T>;

    fn insert(&mut self, index: usize, element: T);

    fn remove(&mut self, index: usize) -> T;

    /// Compute sum of all elements of the vector
    fn sum(&self) -> T;

    /// Multiply each element of the vector with a given field
    /// element `n` (scale the vector). Modifies the vector.
    fn scale(&mut self, n: &FieldElement);

    /// Multiply each element of the vector with a given field
    /// element `n` to create a new vector
    fn scaled_by(&self, n: &FieldElement) -> Self;

    /// Add 2 vectors
    fn plus(&self, b: &Self) -> Result<Self, ValueError>;

    /// Subtract 2 vectors
    fn minus(&self, b: &Self) -> Result<Self, ValueError>;

    fn iter(&self) -> Iter<T>;
}

#[macro_export]
macro_rules! impl_group_elem_vec_ops {
    ( $group_element:ident, $group_element_vec:ident ) => {
        impl GroupElementVector<$group_element> for $group_element_vec {
            fn new(size: usize) -> Self {
                Self {
                    elems: (0..size).map(|_| $group_element::new()).collect(),
                }
            }

            fn with_capacity(capacity: usize) -> Self {
                Self {
                    elems: Vec::<$group_element>::with_capacity(capacity),
                }
            }

            fn as_slice(&self) -> &[$group_element] {
                &self.elems
            }

            fn len(&self) -> usize {
                self.elems.len()
            }

            fn push(&mut self, value: $group_element) {
                self.elems.push(value)
            }

            fn append(&mut self, other: &mut Self) {
                self.elems.append(&mut other.elems)
            }

            fn pop(&mut self) -> Option<$group_element> {
                self.elems.pop()
            }

            fn insert(&mut self, index: usize, element: $group_element) {
                self.elems.insert(index, element)
            }

            fn remove(&mut self, index: usize) -> $group_element {
                self.elems.remove(index)
            }

            fn sum(&self) -> $group_element {
                let mut accum = $group_element::new();
                for i in 0..self.len() {
                    accum += &self[i];
                }
                accum
            }

            fn scale(&mut self, n: &FieldElement) {
                for i in 0..self.len() {
                    self[i] = &self[i] * n;
                }
            }

            fn scaled_by(&self, n: &FieldElement) -> Self {
                let mut scaled = Self::with_capacity(self.len());
                for i in 0..self.len() {
                    scaled.push(&self[i] * n)
                }
                scaled.into()
            }

            fn plus(&self, b: &Self) -> Result<Self, ValueError> {
                check_vector_size_for_equality!(self, b)?;
                let mut sum_vector = Self::with_capacity(self.len());
                for i in 0..self.len() {
                    sum_vector.push(&self[i] + &b.elems[i])
                }
                Ok(sum_vector)
            }

            fn minus(&self, b: &Self) -> Result<Self, ValueError> {
                check_vector_size_for_equality!(self, b)?;
                let mut diff_vector = Self::with_capacity(self.len());
                for i in 0..self.len() {
                    diff_vector.push(&self[i] - &b[i])
                }
                Ok(diff_vector)
            }

            fn iter(&self) -> Iter<$group_element> {
                self.as_slice().iter()
            }
        }
    };
}

macro_rules! impl_group_elem_vec_product_ops {
    ( $group_element:ident, $group_element_vec:ident, $lookup_table:ident ) => {
        impl $group_element_vec {
            /// Computes inner product of 2 vectors, one of field elements and other of group elements.
            /// [a1, a2, a3, ...field elements].[b1, b2, b3, ...group elements] = (a1*b1 + a2*b2 + a3*b3)
            pub fn inner_product_const_time(
                &self,
                b: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                self.multi_scalar_mul_const_time(b)
            }

            pub fn inner_product_var_time(
                &self,
                b: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                self.multi_scalar_mul_var_time(b)
            }

            pub fn inner_product_var_time_with_ref_vecs(
                group_elems: Vec<&$group_element>,
                field_elems: Vec<&FieldElement>,
            ) -> Result<$group_element, ValueError> {
                Self::multi_scalar_mul_var_time_from_ref_vecs(group_elems, field_elems)
            }

            /// Calculates Hadamard product of 2 group element vectors.
            /// Hadamard product of `a` and `b` = `a` o `b` = (a0 o b0, a1 o b1, ...).
            /// Here `o` denotes group operation, which in elliptic curve is point addition
            pub fn hadamard_product(&self, b: &Self) -> Result<Self, ValueError> {
                check_vector_size_for_equality!(self, b)?;
                let mut hadamard_product = Self::with_capacity(self.len());
                for i in 0..self.len() {
                    hadamard_product.push(&self[i] + &b[i]);
                }
                Ok(hadamard_product)
            }

            pub fn split_at(&self, mid: usize) -> (Self, Self) {
                let (l, r) = self.as_slice().split_at(mid);
                (Self::from(l), Self::from(r))
            }

            /// Constant time multi-scalar multiplication. Naive approach computing `n` scalar
            /// multiplications and n-1 additions for `n` field elements
            pub fn multi_scalar_mul_const_time_naive(
                &self,
                field_elems: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                check_vector_size_for_equality!(field_elems, self)?;
                let mut accum = $group_element::new();
                for i in 0..self.len() {
                    accum += &self[i] * &field_elems[i];
                }
                Ok(accum)
            }

            /// Constant time multi-scalar multiplication
            pub fn multi_scalar_mul_const_time(
                &self,
                field_elems: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                Self::_multi_scalar_mul_const_time(&self, field_elems)
            }

            /// Variable time multi-scalar multiplication
            pub fn multi_scalar_mul_var_time(
                &self,
                field_elems: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                let fs: Vec<&FieldElement> = field_elems.iter().map(|f| f).collect();
                Self::_multi_scalar_mul_var_time(&self, fs)
            }

            /// Strauss multi-scalar multiplication
            fn _multi_scalar_mul_var_time(
                group_elems: &$group_element_vec,
                field_elems: Vec<&FieldElement>,
            ) -> Result<$group_element, ValueError> {
                check_vector_size_for_equality!(field_elems, group_elems)?;
                let items: Vec<_> = group_elems
                    .as_slice()
                    .iter()
                    .zip(field_elems.into_iter())
                    .map(|(g, f)| (g.value.id, f.term()))
                    .collect();
                Ok($group_element { value: crate::types::SPoint { id: symcore::arena().lincomb(&items) } })
            }

            pub fn multi_scalar_mul_var_time_from_ref_vecs(
                group_elems: Vec<&$group_element>,
                field_elems: Vec<&FieldElement>,
            ) -> Result<$group_element, ValueError> {
                check_vector_size_for_equality!(field_elems, group_elems)?;
                let items: Vec<_> = group_elems
                    .into_iter()
                    .zip(field_elems.into_iter())
                    .map(|(g, f)| (g.value.id, f.term()))
                    .collect();
                Ok($group_element { value: crate::types::SPoint { id: symcore::arena().lincomb(&items) } })
            }

            /// Strauss multi-scalar multiplication. Passing the lookup tables since in lot of cases generators will be fixed
            pub fn multi_scalar_mul_var_time_with_precomputation_done(
                lookup_tables: &[$lookup_table],
                field_elems: Vec<&FieldElement>,
            ) -> Result<$group_element, ValueError> {
                // Redundant check when called from multi_scalar_mul_var_time
                check_vector_size_for_equality!(field_elems, lookup_tables)?;

                let items: Vec<_> = lookup_tables
                    .iter()
                    .zip(field_elems.into_iter())
                    .map(|(t, f)| (t.0[0].value.id, f.term()))
                    .collect();
                let r = $group_element { value: crate::types::SPoint { id: symcore::arena().lincomb(&items) } };
                Ok(r)
            }

            /// Constant time multi-scalar multiplication.
            /// Taken from Guide to Elliptic Curve Cryptography book, "Algorithm 3.48 Simultaneous multiple point multiplication" without precomputing the addition
            /// Still helps with reducing doublings
            pub(crate) fn _multi_scalar_mul_const_time(
                group_elems: &$group_element_vec,
                field_elems: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                check_vector_size_for_equality!(field_elems, group_elems)?;

                let items: Vec<_> = group_elems
                    .as_slice()
                    .iter()
                    .zip(field_elems.iter())
                    .map(|(g, f)| (g.value.id, f.term()))
                    .collect();
                Ok($group_element { value: crate::types::SPoint { id: symcore::arena().lincomb(&items) } })
            }

            pub fn multi_scalar_mul_const_time_with_precomputation_done(
                group_elem_multiples: &Vec<Vec<$group_element>>,
                field_elems: &FieldElementVector,
            ) -> Result<$group_element, ValueError> {
                // Redundant check when called from multi_scalar_mul_const_time
                check_vector_size_for_equality!(group_elem_multiples, field_elems)?;

                let items: Vec<_> = group_elem_multiples
                    .iter()
                    .zip(field_elems.iter())
                    .map(|(t, f)| (t[0].value.id, f.term()))
                    .collect();
                let r = $group_element { value: crate::types::SPoint { id: symcore::arena().lincomb(&items) } };
                Ok(r)
            }
        }
    };
}

#[macro_export]
macro_rules! impl_group_elem_vec_conversions {
    ( $group_element:ident, $group_element_vec:ident ) => {
        impl From<Vec<$group_element>> for $group_element_vec {
            fn from(x: Vec<$group_element>) -> Self {
                Self { elems: x }
            }
        }

        impl From<&[$group_element]> for $group_element_vec {
            fn from(x: &[$group_element]) -> Self {
                Self { elems: x.to_vec() }
            }
        }

        impl Index<usize> for $group_element_vec {
            type Output = $group_element;

            fn index(&self, idx: usize) -> &$group_element {
                &self.elems[idx]
            }
        }

        impl IndexMut<usize> for $group_element_vec {
            fn index_mut(&mut self, idx: usize) -> &mut $group_element {
                &mut self.elems[idx]
            }
        }

        impl PartialEq for $group_element_vec {
            fn eq(&self, other: &Self) -> bool {
                if self.len() != other.len() {
                    return false;
                }
                for i in 0..self.len() {
                    if self[i] != other[i] {
                        return false;
                    }
                }
                true
            }
        }

        impl IntoIterator for $group_element_vec {
            type Item = $group_element;
            type IntoIter = ::std::vec::IntoIter<$group_element>;

            fn into_iter(self) -> Self::IntoIter {
                self.elems.into_iter()
            }
        }
    };
}

