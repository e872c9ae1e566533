//! A file system whose files are made up by the harness, and a record of its use.
use io_test::VirtualIo;
use io_trait::Io;
use std::cell::RefCell;
use std::io;

pub struct Files<F: Fn(&str) -> Option<String>> {
    pub inner: VirtualIo,
    pub text: F,
    pub reads: RefCell<Vec<String>>,
    pub writes: RefCell<Vec<(String, Vec<u8>)>>,
    /// other changes
    pub touched: RefCell<Vec<String>>,
    /// whether writing fails
    pub full: bool,
}
impl<F: Fn(&str) -> Option<String>> Files<F> {
    pub fn new(text: F) -> Self {
        Files { inner: VirtualIo::new(&[]), text, reads: Default::default(), writes: Default::default(), touched: Default::default(), full: false }
    }
    fn get(&self, path: &str) -> io::Result<String> {
        self.reads.borrow_mut().push(path.to_string());
        (self.text)(path).ok_or_else(|| io::Error::from(io::ErrorKind::NotFound))
    }
}
impl<F: Fn(&str) -> Option<String>> Io for Files<F> {
    type Args = <VirtualIo as Io>::Args;
    type File = <VirtualIo as Io>::File;
    type Stdout = <VirtualIo as Io>::Stdout;
    type Metadata = <VirtualIo as Io>::Metadata;
    type DirEntry = <VirtualIo as Io>::DirEntry;
    type Instant = <VirtualIo as Io>::Instant;
    fn args(&self) -> Self::Args {
        self.inner.args()
    }
    fn stdout(&self) -> Self::Stdout {
        self.inner.stdout()
    }
    fn metadata(&self, path: &str) -> io::Result<Self::Metadata> {
        self.inner.metadata(path)
    }
    fn create_dir(&self, path: &str) -> io::Result<()> {
        self.touched.borrow_mut().push(path.to_string());
        self.inner.create_dir(path)
    }
    fn create(&self, path: &str) -> io::Result<Self::File> {
        self.touched.borrow_mut().push(path.to_string());
        self.inner.create(path)
    }
    fn open(&self, path: &str) -> io::Result<Self::File> {
        let s = self.get(path)?;
        self.inner.write("file", s.as_bytes())?;
        self.inner.open("file")
    }
    fn now(&self) -> Self::Instant {
        self.inner.now()
    }
    fn read_dir(&self, path: &str) -> io::Result<Vec<Self::DirEntry>> {
        self.inner.read_dir(path)
    }
    fn read(&self, path: &str) -> io::Result<Vec<u8>> {
        Ok(self.get(path)?.into_bytes())
    }
    fn read_to_string(&self, path: &str) -> io::Result<String> {
        self.get(path)
    }
    fn write(&self, path: &str, data: &[u8]) -> io::Result<()> {
        self.writes.borrow_mut().push((path.to_string(), data.to_vec()));
        if self.full {
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        Ok(())
    }
    fn current_dir(&self) -> io::Result<String> {
        self.inner.current_dir()
    }
    fn set_current_dir(&self, path: &str) -> io::Result<()> {
        self.touched.borrow_mut().push(path.to_string());
        self.inner.set_current_dir(path)
    }
}
