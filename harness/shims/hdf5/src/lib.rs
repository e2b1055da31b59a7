//! Stand-in for the `hdf5` crate: files live in the memory of the process (an empty file marks
//! their place in the file system). As with the library, a file that one process has open for
//! writing cannot be opened by another one.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub use hdf5_derive::H5Type;

#[derive(Clone, Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

pub mod types {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum TypeDescriptor {
        Integer(usize),
        Unsigned(usize),
        Float(usize),
        Boolean,
        FixedArray(Box<TypeDescriptor>, usize),
        Compound(Vec<(String, TypeDescriptor)>),
    }
}
use types::TypeDescriptor;

/// # Safety
/// Values are copied bytewise.
pub unsafe trait H5Type: 'static {
    fn type_descriptor() -> TypeDescriptor;
}

macro_rules! scalars {
    ($($t: ty, $k: ident;)*) => {
        $(unsafe impl H5Type for $t {
            fn type_descriptor() -> TypeDescriptor {
                TypeDescriptor::$k(std::mem::size_of::<$t>())
            }
        })*
    };
}
scalars!(i8, Integer; i16, Integer; i32, Integer; i64, Integer; isize, Integer;
    u8, Unsigned; u16, Unsigned; u32, Unsigned; u64, Unsigned; usize, Unsigned;
    f32, Float; f64, Float;);
unsafe impl H5Type for bool {
    fn type_descriptor() -> TypeDescriptor {
        TypeDescriptor::Boolean
    }
}
unsafe impl<T: H5Type, const N: usize> H5Type for [T; N] {
    fn type_descriptor() -> TypeDescriptor {
        TypeDescriptor::FixedArray(Box::new(T::type_descriptor()), N)
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Array {
    ty: TypeDescriptor,
    item: usize,
    shape: Vec<usize>,
    bytes: Vec<u8>,
    written: Vec<bool>,
}

impl Array {
    fn new<T: H5Type>(shape: Vec<usize>) -> Self {
        let n = shape.iter().product::<usize>();
        Self {
            ty: T::type_descriptor(),
            item: std::mem::size_of::<T>(),
            shape,
            bytes: vec![0; n * std::mem::size_of::<T>()],
            written: vec![false; n],
        }
    }
    fn write<T: H5Type>(&mut self, start: usize, data: &[T]) -> Result<()> {
        if T::type_descriptor() != self.ty {
            return err("no conversion between the types");
        }
        if start + data.len() > self.written.len() {
            return err("selection out of bounds");
        }
        let p = data.as_ptr() as *const u8;
        for i in 0..data.len() * self.item {
            self.bytes[start * self.item + i] = unsafe { *p.add(i) };
        }
        for w in &mut self.written[start..start + data.len()] {
            *w = true;
        }
        Ok(())
    }
    fn read<T: H5Type>(&self, range: Range<usize>) -> Result<Vec<T>> {
        if T::type_descriptor() != self.ty || std::mem::size_of::<T>() != self.item {
            return err("no conversion between the types");
        }
        if range.end > self.written.len() || range.start > range.end {
            return err("selection out of bounds");
        }
        let n = range.end - range.start;
        let mut v: Vec<T> = Vec::with_capacity(n);
        unsafe {
            std::ptr::copy_nonoverlapping(
                self.bytes.as_ptr().add(range.start * self.item),
                v.as_mut_ptr() as *mut u8,
                n * self.item,
            );
            v.set_len(n);
        }
        Ok(v)
    }
}

#[derive(Clone, Debug, Default)]
struct Content {
    datasets: BTreeMap<String, (Array, BTreeMap<String, Array>)>,
    attrs: BTreeMap<String, Array>,
    handles: Vec<(usize, u64, bool)>,
}

#[derive(Default)]
struct Store {
    files: BTreeMap<PathBuf, Content>,
    next: u64,
    process: Option<fn() -> usize>,
    log: Vec<String>,
}

thread_local! {
    static STORE: RefCell<Store> = RefCell::new(Store::default());
}

fn with<T>(f: impl FnOnce(&mut Store) -> T) -> T {
    STORE.with(|s| f(&mut s.borrow_mut()))
}

/// For the harness.
pub mod model {
    use super::*;

    pub fn reset() {
        with(|s| {
            s.files.clear();
            s.log.clear();
        });
    }
    pub fn set_process(f: fn() -> usize) {
        with(|s| s.process = Some(f));
    }
    pub fn files() -> Vec<PathBuf> {
        with(|s| s.files.keys().cloned().collect())
    }
    pub fn datasets(file: &Path) -> Vec<String> {
        with(|s| s.files[file].datasets.keys().cloned().collect())
    }
    pub fn dataset<T: H5Type>(file: &Path, name: &str) -> Option<(Vec<usize>, Vec<T>, Vec<bool>)> {
        with(|s| {
            let (a, _) = s.files.get(file)?.datasets.get(name)?;
            Some((
                a.shape.clone(),
                a.read::<T>(0..a.written.len()).ok()?,
                a.written.clone(),
            ))
        })
    }
    pub fn attr<T: H5Type>(file: &Path, dataset: Option<&str>, name: &str) -> Option<T> {
        with(|s| {
            let f = s.files.get(file)?;
            let a = match dataset {
                Some(d) => f.datasets.get(d)?.1.get(name)?,
                None => f.attrs.get(name)?,
            };
            a.read::<T>(0..1).ok()?.pop()
        })
    }
    /// Opened, refused and closed files.
    pub fn log() -> Vec<String> {
        with(|s| s.log.clone())
    }
}

#[derive(Debug)]
struct Handle {
    path: PathBuf,
    id: u64,
    rw: bool,
}

impl Drop for Handle {
    fn drop(&mut self) {
        let _ = STORE.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                let id = self.id;
                if let Some(f) = s.files.get_mut(&self.path) {
                    f.handles.retain(|h| h.1 != id);
                }
            }
        });
    }
}

#[derive(Clone, Debug)]
pub struct File(Rc<Handle>);
// One process of the model is one thread of control.
unsafe impl Send for File {}
unsafe impl Sync for File {}
#[derive(Clone, Debug)]
pub struct Dataset {
    file: File,
    name: String,
}
#[derive(Clone, Debug)]
pub struct Attribute {
    file: File,
    dataset: Option<String>,
    name: String,
}

impl File {
    fn open_with(path: &Path, rw: bool, create: bool) -> Result<File> {
        with(|s| {
            let process = s.process.map(|f| f()).unwrap_or(0);
            if create {
                if s.files
                    .get(path)
                    .map(|f| !f.handles.is_empty())
                    .unwrap_or(false)
                {
                    return err(format!("unable to truncate a file which is already open: {path:?}"));
                }
                if let Err(e) = std::fs::write(path, "") {
                    return err(format!("unable to create {path:?}: {e}"));
                }
                s.files.insert(path.to_owned(), Content::default());
            }
            s.next += 1;
            let id = s.next;
            let f = match s.files.get_mut(path) {
                Some(f) => f,
                None => return err(format!("unable to open {path:?}: no such file")),
            };
            if f.handles
                .iter()
                .any(|h| h.0 != process && (rw || h.2))
            {
                return err(format!(
                    "unable to lock {path:?}: it is open in another process"
                ));
            }
            f.handles.push((process, id, rw));
            Ok(File(Rc::new(Handle {
                path: path.to_owned(),
                id,
                rw,
            })))
        })
    }
    pub fn create<P: AsRef<Path>>(path: P) -> Result<File> {
        Self::open_with(path.as_ref(), true, true)
    }
    pub fn open<P: AsRef<Path>>(path: P) -> Result<File> {
        Self::open_with(path.as_ref(), false, false)
    }
    pub fn open_rw<P: AsRef<Path>>(path: P) -> Result<File> {
        Self::open_with(path.as_ref(), true, false)
    }
    pub fn append<P: AsRef<Path>>(path: P) -> Result<File> {
        Self::open_rw(path)
    }
    pub fn filename(&self) -> String {
        self.0.path.to_string_lossy().into_owned()
    }
    fn content<T>(&self, f: impl FnOnce(&mut Content) -> T) -> Result<T> {
        with(|s| match s.files.get_mut(&self.0.path) {
            Some(c) => Ok(f(c)),
            None => err("file is gone"),
        })
    }
    pub fn dataset(&self, name: impl AsRef<str>) -> Result<Dataset> {
        let name = name.as_ref().trim_start_matches('/').to_string();
        if self.content(|c| c.datasets.contains_key(&name))? {
            Ok(Dataset {
                file: self.clone(),
                name,
            })
        } else {
            err(format!("no dataset {name:?}"))
        }
    }
    pub fn new_dataset<T: H5Type>(&self) -> DatasetBuilder<T> {
        DatasetBuilder {
            file: self.clone(),
            shape: vec![],
            _marker: std::marker::PhantomData,
        }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        if self.content(|c| c.attrs.contains_key(name))? {
            Ok(Attribute {
                file: self.clone(),
                dataset: None,
                name: name.into(),
            })
        } else {
            err(format!("no attribute {name:?}"))
        }
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilder<T> {
        AttributeBuilder {
            file: self.clone(),
            dataset: None,
            shape: vec![],
            _marker: std::marker::PhantomData,
        }
    }
    pub fn flush(&self) -> Result<()> {
        Ok(())
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
}

pub trait Extents {
    fn extents(self) -> Vec<usize>;
}
impl Extents for () {
    fn extents(self) -> Vec<usize> {
        vec![]
    }
}
impl Extents for usize {
    fn extents(self) -> Vec<usize> {
        vec![self]
    }
}
impl<const N: usize> Extents for &[usize; N] {
    fn extents(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const N: usize> Extents for [usize; N] {
    fn extents(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl Extents for Vec<usize> {
    fn extents(self) -> Vec<usize> {
        self
    }
}
impl Extents for (usize,) {
    fn extents(self) -> Vec<usize> {
        vec![self.0]
    }
}
impl Extents for (usize, usize) {
    fn extents(self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}

pub struct DatasetBuilder<T> {
    file: File,
    shape: Vec<usize>,
    _marker: std::marker::PhantomData<T>,
}
impl<T: H5Type> DatasetBuilder<T> {
    pub fn shape(mut self, s: impl Extents) -> Self {
        self.shape = s.extents();
        self
    }
    pub fn create<'n>(self, name: impl Into<&'n str>) -> Result<Dataset> {
        let name = name.into().to_string();
        if !self.file.0.rw {
            return err("no write intent on file");
        }
        let shape = self.shape;
        if self.file.content(|c| {
            if c.datasets.contains_key(&name) {
                return false;
            }
            c.datasets
                .insert(name.clone(), (Array::new::<T>(shape), BTreeMap::new()));
            true
        })? {
            Ok(Dataset {
                file: self.file,
                name,
            })
        } else {
            err(format!("unable to create dataset {name:?}: name already exists"))
        }
    }
}

pub struct AttributeBuilder<T> {
    file: File,
    dataset: Option<String>,
    shape: Vec<usize>,
    _marker: std::marker::PhantomData<T>,
}
impl<T: H5Type> AttributeBuilder<T> {
    pub fn shape(mut self, s: impl Extents) -> Self {
        self.shape = s.extents();
        self
    }
    pub fn create<'n>(self, name: impl Into<&'n str>) -> Result<Attribute> {
        let name = name.into().to_string();
        if !self.file.0.rw {
            return err("no write intent on file");
        }
        let (shape, dataset) = (self.shape, self.dataset);
        let fresh = self.file.content(|c| {
            let map = match &dataset {
                Some(d) => &mut c.datasets.get_mut(d).unwrap().1,
                None => &mut c.attrs,
            };
            if map.contains_key(&name) {
                return false;
            }
            map.insert(name.clone(), Array::new::<T>(shape));
            true
        })?;
        if fresh {
            Ok(Attribute {
                file: self.file,
                dataset,
                name,
            })
        } else {
            err(format!("unable to create attribute {name:?}: it already exists"))
        }
    }
}

impl Attribute {
    fn array<T>(&self, f: impl FnOnce(&mut Array) -> T) -> Result<T> {
        self.file.content(|c| {
            f(match &self.dataset {
                Some(d) => c.datasets.get_mut(d).unwrap().1.get_mut(&self.name).unwrap(),
                None => c.attrs.get_mut(&self.name).unwrap(),
            })
        })
    }
    pub fn write_scalar<T: H5Type>(&self, v: &T) -> Result<()> {
        self.array(|a| a.write(0, std::slice::from_ref(v)))?
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        self.array(|a| a.read::<T>(0..1))?.map(|mut v| v.pop().unwrap())
    }
}

pub enum Selection {
    Rows(Range<usize>),
    All,
}

impl Selection {
    pub fn try_new<S: Into<Selection>>(s: S) -> Result<Selection> {
        Ok(s.into())
    }
}
impl From<Range<usize>> for Selection {
    fn from(r: Range<usize>) -> Self {
        Selection::Rows(r)
    }
}
impl From<std::ops::RangeFull> for Selection {
    fn from(_: std::ops::RangeFull) -> Self {
        Selection::All
    }
}
impl<D1: ndarray::Dimension, D2: ndarray::Dimension> From<ndarray::SliceInfo<[ndarray::SliceInfoElem; 2], D1, D2>>
    for Selection
{
    fn from(s: ndarray::SliceInfo<[ndarray::SliceInfoElem; 2], D1, D2>) -> Self {
        match s[0] {
            ndarray::SliceInfoElem::Slice {
                start,
                end: Some(end),
                ..
            } => Selection::Rows(start as usize..end as usize),
            _ => Selection::All,
        }
    }
}

impl Dataset {
    fn array<T>(&self, f: impl FnOnce(&mut Array) -> T) -> Result<T> {
        self.file
            .content(|c| f(&mut c.datasets.get_mut(&self.name).unwrap().0))
    }
    pub fn name(&self) -> String {
        format!("/{}", self.name)
    }
    pub fn shape(&self) -> Vec<usize> {
        self.array(|a| a.shape.clone()).unwrap()
    }
    pub fn size(&self) -> usize {
        self.shape().iter().product()
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        if self
            .file
            .content(|c| c.datasets[&self.name].1.contains_key(name))?
        {
            Ok(Attribute {
                file: self.file.clone(),
                dataset: Some(self.name.clone()),
                name: name.into(),
            })
        } else {
            err(format!("no attribute {name:?}"))
        }
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilder<T> {
        AttributeBuilder {
            file: self.file.clone(),
            dataset: Some(self.name.clone()),
            shape: vec![],
            _marker: std::marker::PhantomData,
        }
    }
    /// One-dimensional data.
    pub fn write_slice<'a, T: H5Type, S: Into<Selection>>(
        &self,
        data: impl AsRows<'a, T>,
        selection: S,
    ) -> Result<()> {
        if !self.file.0.rw {
            return err("no write intent on file");
        }
        let data = data.rows();
        self.array(|a| {
            let range = match selection.into() {
                Selection::Rows(r) => r,
                Selection::All => 0..a.written.len(),
            };
            if range.end < range.start || range.end - range.start != data.len() {
                return err("shape of the data differs from the selection");
            }
            a.write(range.start, data)
        })?
    }
    pub fn write<'a, T: H5Type>(&self, data: impl AsRows<'a, T>) -> Result<()> {
        let n = self.array(|a| a.written.len())?;
        let data = data.rows();
        if n != data.len() {
            return err("shape of the data differs from the dataset");
        }
        self.array(|a| a.write(0, data))?
    }
    pub fn read_slice_1d<T: H5Type, S: Into<Selection>>(
        &self,
        selection: S,
    ) -> Result<ndarray::Array1<T>> {
        self.array(|a| {
            if a.shape.len() != 1 {
                return err("the dataset has more than one dimension");
            }
            let range = match selection.into() {
                Selection::Rows(r) => r,
                Selection::All => 0..a.shape[0],
            };
            a.read::<T>(range)
        })?
        .map(ndarray::Array1::from_vec)
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<ndarray::Array1<T>> {
        self.read_slice_1d(..)
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        self.array(|a| a.read(0..a.written.len()))?
    }
    pub fn read_slice_2d<T: H5Type, S: Into<Selection>>(
        &self,
        selection: S,
    ) -> Result<ndarray::Array2<T>> {
        let (v, rows, k) = self.array(|a| {
            if a.shape.len() != 2 {
                return err("the dataset does not have two dimensions");
            }
            let range = match selection.into() {
                Selection::Rows(r) => r,
                Selection::All => 0..a.shape[0],
            };
            let k = a.shape[1];
            let n = range.end.saturating_sub(range.start);
            Ok((a.read::<T>(range.start * k..range.end * k)?, n, k))
        })??;
        Ok(ndarray::Array2::from_shape_vec((rows, k), v).unwrap())
    }
}

pub trait AsRows<'a, T> {
    fn rows(self) -> &'a [T];
}
impl<'a, T> AsRows<'a, T> for &'a [T] {
    fn rows(self) -> &'a [T] {
        self
    }
}
impl<'a, T> AsRows<'a, T> for &'a Vec<T> {
    fn rows(self) -> &'a [T] {
        self
    }
}
