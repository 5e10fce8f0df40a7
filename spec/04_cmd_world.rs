// The world outside the command line: files, what the user says, and the operations on
// them.  The operations are std's (and clap's); each contract is an assumption.  What a
// contract leaves open (the bytes of a file with writes not yet flushed, say) is unknown
// to the proofs.
pub mod vworld {
    use vstd::prelude::*;

    // what was asked for, and of which file
    pub ghost struct Job {
        pub src: Seq<char>,
        pub src_ino: int,
        pub dst: Seq<char>,
        pub content: Seq<u8>,
        pub dec: bool,
        pub replace: bool,
        pub noask: bool,
        pub block: Option<int>,
    }
    pub ghost struct St {
        pub job: Job,
        // the file each name leads to
        pub names: Map<Seq<char>, int>,
        // the bytes of each file; those of a file with writes pending are arbitrary
        pub data: Map<int, Seq<u8>>,
        // files whose length is what metadata says; others are pipes, devices: length 0
        pub regular: Set<int>,
        pub dirs: Set<Seq<char>>,
        // an operation failed; an operation failed through no fault of the program
        pub failed: bool,
        pub faulty: bool,
        // the user was asked; and agreed
        pub answered: bool,
        pub agreed: bool,
        // names looked up with exists()
        pub tried: Set<Seq<char>>,
    }
    impl St {
        // the outcome of an operation; `logic`: it had to fail
        pub open spec fn did(self, err: bool, logic: bool) -> St {
            St { failed: self.failed || err, faulty: self.faulty || (err && !logic), ..self }
        }
        // with the bytes of one file unknown
        pub open spec fn touched(self, ino: int, x: Seq<u8>) -> St { St { data: self.data.insert(ino, x), ..self } }
        // may the file of that name be made anew
        pub open spec fn may_create(self, p: Seq<char>) -> bool {
            self.names.contains_key(p) ==> self.names[p] != self.job.src_ino && (self.job.noask || (self.answered && self.agreed))
        }
        pub open spec fn wf(self) -> bool {
            &&& forall|p: Seq<char>| #[trigger] self.names.contains_key(p) ==> self.data.contains_key(self.names[p])
            &&& self.data.contains_key(self.job.src_ino)
            &&& self.names.contains_key(self.job.src) ==> self.names[self.job.src] == self.job.src_ino
            &&& !self.names.contains_key(self.job.src) ==> forall|p: Seq<char>| #[trigger] self.names.contains_key(p) ==> self.names[p] != self.job.src_ino
            &&& self.data[self.job.src_ino] == self.job.content
        }
    }
    // an operation on one file: nothing else changes
    pub open spec fn moved(a: St, b: St, ino: int, err: bool, logic: bool) -> bool {
        &&& b == (St { data: b.data, failed: a.failed || err, faulty: a.faulty || (err && !logic), ..a })
        &&& b.data =~= a.data.insert(ino, b.data[ino])
    }
    pub tracked struct World { pub ghost st: St }

    pub open spec fn overwrite(c: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
        if p + b.len() >= c.len() { c.take(p) + b } else { c.take(p) + b + c.skip(p + b.len()) }
    }
    pub open spec fn agrees(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == 'y' || s[0] == 'Y') }

    pub mod io {
        use vstd::prelude::*;
        use super::*;
        #[verifier::external_body]
        pub struct Error { e: u8 }
        pub type Result<T> = core::result::Result<T, Error>;
        impl Error {
            #[verifier::external_body]
            pub fn to_string(&self) -> String { String::new() }
        }
        pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
        pub open spec fn target(f: SeekFrom, pos: int, len: int) -> int {
            match f { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => len + n, SeekFrom::Current(n) => pos + n }
        }
        // an open file; `content`: of a reader the bytes when it was opened, of a
        // writer the bytes after all writes so far; `end`: how far a reader reads
        pub trait Io {
            spec fn ino(&self) -> int;
            spec fn pos(&self) -> int;
            spec fn content(&self) -> Seq<u8>;
            spec fn end(&self) -> int;
            spec fn writes(&self) -> bool;
        }
        pub open spec fn same_io<T: Io>(a: &T, b: &T) -> bool { a.ino() == b.ino() && a.writes() == b.writes() }
        // reading moves along, and nothing else
        pub open spec fn only_read<T: Io>(a: &T, b: &T) -> bool { same_io(a, b) && a.content() == b.content() && a.end() == b.end() }
        pub open spec fn intact<T: Io>(a: &T, s: St) -> bool { s.data.contains_key(a.ino()) && s.data[a.ino()] == a.content() }

        pub trait Read: Io + Sized {
            fn read_exact(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
                ensures
                    only_read(old(self), final(self)), final(buf)@.len() == old(buf)@.len(),
                    final(w).st == old(w).st.did(r is Err, !intact(old(self), old(w).st) || old(self).pos() + old(buf)@.len() > old(self).end()),
                    r is Ok && intact(old(self), old(w).st) ==> old(self).pos() + old(buf)@.len() <= old(self).end()
                        && final(buf)@ == old(self).content().subrange(old(self).pos(), old(self).pos() + old(buf)@.len())
                        && final(self).pos() == old(self).pos() + old(buf)@.len();
            fn read(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize>)
                ensures
                    only_read(old(self), final(self)), final(buf)@.len() == old(buf)@.len(),
                    final(w).st == old(w).st.did(r is Err, !intact(old(self), old(w).st)),
                    r is Ok ==> r->Ok_0 <= old(buf)@.len(),
                    r is Ok && intact(old(self), old(w).st) ==> old(self).pos() + r->Ok_0 <= old(self).end()
                        && final(buf)@.take(r->Ok_0 as int) == old(self).content().subrange(old(self).pos(), old(self).pos() + r->Ok_0)
                        && final(self).pos() == old(self).pos() + r->Ok_0
                        && (r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).pos() == old(self).end());
            fn read_to_end(&mut self, buf: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize>)
                ensures
                    only_read(old(self), final(self)),
                    final(w).st == old(w).st.did(r is Err, !intact(old(self), old(w).st)),
                    r is Ok && intact(old(self), old(w).st) && old(self).pos() <= old(self).end() ==>
                        final(buf)@ == old(buf)@ + old(self).content().subrange(old(self).pos(), old(self).end())
                        && r->Ok_0 == old(self).end() - old(self).pos()
                        && final(self).pos() == old(self).end();
            fn take(self, limit: u64) -> (r: Take<Self>)
                ensures r.inner == self, r.limit == limit;
        }
        pub trait Write: Io + Sized {
            // never to the source file
            fn write_all(&mut self, buf: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
                requires old(self).ino() != old(w).st.job.src_ino, // only: C22
                ensures
                    same_io(old(self), final(self)),
                    moved(old(w).st, final(w).st, old(self).ino(), r is Err, false),
                    r is Ok && 0 <= old(self).pos() <= old(self).content().len() ==> final(self).content() == overwrite(old(self).content(), old(self).pos(), buf@) && final(self).pos() == old(self).pos() + buf@.len();
            fn write(&mut self, buf: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize>)
                requires old(self).ino() != old(w).st.job.src_ino, // only: C22
                ensures
                    same_io(old(self), final(self)),
                    moved(old(w).st, final(w).st, old(self).ino(), r is Err, false),
                    r is Ok ==> r->Ok_0 <= buf@.len(),
                    r is Ok && 0 <= old(self).pos() <= old(self).content().len() ==> final(self).content() == overwrite(old(self).content(), old(self).pos(), buf@.take(r->Ok_0 as int)) && final(self).pos() == old(self).pos() + r->Ok_0;
            fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
                requires old(self).ino() != old(w).st.job.src_ino, // only: C22
                ensures
                    same_io(old(self), final(self)),
                    moved(old(w).st, final(w).st, old(self).ino(), r is Err, false),
                    r is Ok ==> final(self).content() == old(self).content() && final(self).pos() == old(self).pos() && intact(final(self), final(w).st);
        }
        pub trait Seek: Io + Sized {
            fn seek(&mut self, f: SeekFrom, Tracked(w): Tracked<&mut World>) -> (r: Result<u64>)
                requires old(self).writes() ==> old(self).ino() != old(w).st.job.src_ino,
                ensures
                    same_io(old(self), final(self)), final(self).end() == old(self).end(),
                    !old(self).writes() ==> final(w).st == old(w).st.did(r is Err, target(f, old(self).pos(), old(self).content().len() as int) < 0),
                    old(self).writes() ==> moved(old(w).st, final(w).st, old(self).ino(), r is Err, target(f, old(self).pos(), old(self).content().len() as int) < 0),
                    !old(self).writes() ==> final(self).content() == old(self).content(),
                    r is Ok ==> final(self).content() == old(self).content() && final(self).pos() == r->Ok_0 && r->Ok_0 == target(f, old(self).pos(), old(self).content().len() as int),
                    r is Ok && old(self).writes() ==> intact(final(self), final(w).st);
        }

        pub struct BufReader<T> { pub inner: T }
        impl<T: Io> BufReader<T> {
            pub fn new(inner: T) -> (r: Self) ensures r.inner == inner { BufReader { inner } }
            pub fn with_capacity(n: usize, inner: T) -> (r: Self) ensures r.inner == inner { BufReader { inner } }
        }
        impl<T: Io> Io for BufReader<T> {
            open spec fn ino(&self) -> int { self.inner.ino() }
            open spec fn pos(&self) -> int { self.inner.pos() }
            open spec fn content(&self) -> Seq<u8> { self.inner.content() }
            open spec fn end(&self) -> int { self.inner.end() }
            open spec fn writes(&self) -> bool { self.inner.writes() }
        }
        impl<T: Read> Read for BufReader<T> {
            #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body] fn read(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize>) { unimplemented!() }
            fn take(self, limit: u64) -> (r: Take<Self>) { Take { inner: self, limit } }
        }
        impl<T: Seek> Seek for BufReader<T> {
            #[verifier::external_body] fn seek(&mut self, f: SeekFrom, Tracked(w): Tracked<&mut World>) -> (r: Result<u64>) { unimplemented!() }
        }
        pub struct BufWriter<T> { pub inner: T }
        impl<T: Io> BufWriter<T> {
            pub fn new(inner: T) -> (r: Self) ensures r.inner == inner { BufWriter { inner } }
            pub fn with_capacity(n: usize, inner: T) -> (r: Self) ensures r.inner == inner { BufWriter { inner } }
        }
        impl<T: Io> Io for BufWriter<T> {
            open spec fn ino(&self) -> int { self.inner.ino() }
            open spec fn pos(&self) -> int { self.inner.pos() }
            open spec fn content(&self) -> Seq<u8> { self.inner.content() }
            open spec fn end(&self) -> int { self.inner.end() }
            open spec fn writes(&self) -> bool { true }
        }
        impl<T: Write> Write for BufWriter<T> {
            #[verifier::external_body] fn write_all(&mut self, buf: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body] fn write(&mut self, buf: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body] fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<()>) { unimplemented!() }
        }
        impl<T: Write + Seek> Seek for BufWriter<T> {
            #[verifier::external_body] fn seek(&mut self, f: SeekFrom, Tracked(w): Tracked<&mut World>) -> (r: Result<u64>) { unimplemented!() }
        }
        pub struct Take<T> { pub inner: T, pub limit: u64 }
        impl<T: Io> Io for Take<T> {
            open spec fn ino(&self) -> int { self.inner.ino() }
            open spec fn pos(&self) -> int { self.inner.pos() }
            open spec fn content(&self) -> Seq<u8> { self.inner.content() }
            open spec fn end(&self) -> int { if self.inner.pos() + self.limit < self.inner.end() { self.inner.pos() + self.limit } else { self.inner.end() } }
            open spec fn writes(&self) -> bool { self.inner.writes() }
        }
        impl<T: Read> Read for Take<T> {
            #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body] fn read(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize>)
                ensures
                    // the limit only cuts the reading short
                    final(self).inner.end() == old(self).inner.end(), only_read(&old(self).inner, &final(self).inner),
            { unimplemented!() }
            fn take(self, limit: u64) -> (r: Take<Self>) { Take { inner: self, limit } }
        }
        impl<T: Read> Take<T> {
            pub fn set_limit(&mut self, limit: u64) ensures *final(self) == (Take { limit, ..*old(self) }) { self.limit = limit }
            pub fn limit(&self) -> (r: u64) ensures r == self.limit { self.limit }
            pub fn into_inner(self) -> (r: T) ensures r == self.inner { self.inner }
        }

        // the terminal
        pub struct Stdout { pub o: u8 }
        pub struct Stdin { pub o: u8 }
        #[verifier::external_body]
        pub fn stdout() -> Stdout { unimplemented!() }
        #[verifier::external_body]
        pub fn stdin() -> Stdin { unimplemented!() }
        impl Stdout {
            #[verifier::external_body]
            pub fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
                ensures final(w).st == old(w).st.did(r is Err, false),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_write_text(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
                ensures final(w).st == old(w).st.did(r is Err, false),
            { unimplemented!() }
        }
        impl Stdin {
            #[verifier::external_body]
            pub fn read_line(&self, s: &mut String, Tracked(w): Tracked<&mut World>) -> (r: Result<usize>)
                ensures
                    r is Err ==> final(w).st == old(w).st.did(true, false),
                    r is Ok ==> exists|t: Seq<char>| final(s)@ == #[trigger] (old(s)@ + t) && final(w).st == (St { answered: true, agreed: agrees(t), ..old(w).st }),
            { unimplemented!() }
        }
    }

    pub mod fs {
        use vstd::prelude::*;
        use super::*;
        use super::io::*;
        use super::path::AsPath;
        pub struct File { pub ino: Ghost<int>, pub pos: Ghost<int>, pub content: Ghost<Seq<u8>>, pub writes: Ghost<bool> }
        impl Io for File {
            open spec fn ino(&self) -> int { self.ino@ }
            open spec fn pos(&self) -> int { self.pos@ }
            open spec fn content(&self) -> Seq<u8> { self.content@ }
            open spec fn end(&self) -> int { self.content@.len() as int }
            open spec fn writes(&self) -> bool { self.writes@ }
        }
        pub struct Metadata { pub ino: Ghost<int>, pub size: u64 }
        impl Metadata {
            pub fn len(&self) -> (r: u64) ensures r == self.size { self.size }
            pub fn is_dir(&self) -> bool { false }
            pub uninterp spec fn dev_of(ino: int) -> u64;
            pub uninterp spec fn ino_of(ino: int) -> u64;
            #[verifier::external_body]
            pub fn dev(&self) -> (r: u64) ensures r == Self::dev_of(self.ino@) { unimplemented!() }
            #[verifier::external_body]
            pub fn ino(&self) -> (r: u64) ensures r == Self::ino_of(self.ino@) { unimplemented!() }
        }
        // two files differ in their device or their number on it
        pub axiom fn axiom_dev_ino(a: int, b: int)
            ensures Metadata::dev_of(a) == Metadata::dev_of(b) && Metadata::ino_of(a) == Metadata::ino_of(b) ==> a == b;
        impl File {
            #[verifier::external_body]
            pub fn open<P: AsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<File>)
                ensures
                    final(w).st == old(w).st.did(r is Err, false),
                    r is Ok ==> old(w).st.names.contains_key(p.text()) && (r->Ok_0).ino() == old(w).st.names[p.text()] && (r->Ok_0).pos() == 0
                        && (r->Ok_0).content() == old(w).st.data[old(w).st.names[p.text()]] && !(r->Ok_0).writes(),
            { unimplemented!() }
            // an existing file is emptied: only if it is not the source and the user agreed
            #[verifier::external_body]
            pub fn create<P: AsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<File>)
                requires old(w).st.may_create(p.text()), // only: C22
                ensures
                    r is Err ==> final(w).st == old(w).st.did(true, false),
                    r is Ok ==> ({
                        let i = (r->Ok_0).ino();
                        let s = final(w).st;
                        &&& s == (St { names: s.names, ..old(w).st.touched(i, Seq::empty()) })
                        &&& old(w).st.names.contains_key(p.text()) ==> i == old(w).st.names[p.text()] && s.names == old(w).st.names
                        &&& !old(w).st.names.contains_key(p.text()) ==> !old(w).st.data.contains_key(i) && old(w).st.names.submap_of(s.names)
                            && forall|q: Seq<char>| #[trigger] s.names.contains_key(q) && !old(w).st.names.contains_key(q) ==> s.names[q] == i
                        &&& s.names.contains_key(p.text()) && s.names[p.text()] == i
                        &&& (r->Ok_0).pos() == 0 && (r->Ok_0).content() == Seq::<u8>::empty() && (r->Ok_0).writes()
                    }),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn metadata(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Metadata>)
                ensures
                    final(w).st == old(w).st.did(r is Err, false),
                    r is Ok ==> (r->Ok_0).ino@ == self.ino()
                        && (old(w).st.regular.contains(self.ino()) ==> (r->Ok_0).size == old(w).st.data[self.ino()].len())
                        && (!old(w).st.regular.contains(self.ino()) ==> (r->Ok_0).size == 0),
            { unimplemented!() }
        }
        impl Read for File {
            #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body] fn read(&mut self, buf: &mut [u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize>) { unimplemented!() }
            fn take(self, limit: u64) -> (r: Take<Self>) { Take { inner: self, limit } }
        }
        impl Write for File {
            #[verifier::external_body] fn write_all(&mut self, buf: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body] fn write(&mut self, buf: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body] fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<()>) { unimplemented!() }
        }
        impl Seek for File {
            #[verifier::external_body] fn seek(&mut self, f: SeekFrom, Tracked(w): Tracked<&mut World>) -> (r: Result<u64>) { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn metadata<P: AsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<Metadata>)
            ensures
                final(w).st == old(w).st.did(r is Err, false),
                r is Ok ==> old(w).st.names.contains_key(p.text()) && (r->Ok_0).ino@ == old(w).st.names[p.text()],
        { unimplemented!() }
        // only the source, only if asked to, and only once its result is there
        #[verifier::external_body]
        pub fn remove_file<P: AsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
            requires
                p.text() == old(w).st.job.src, old(w).st.job.replace, crate::vcli::finished(old(w).st), // only: C22
            ensures
                r is Err ==> final(w).st == old(w).st.did(true, false),
                r is Ok ==> final(w).st == (St { names: final(w).st.names, ..old(w).st }) && final(w).st.names.submap_of(old(w).st.names)
                    && (forall|q: Seq<char>| #[trigger] final(w).st.names.contains_key(q) ==> old(w).st.names.contains_key(q) && final(w).st.names[q] == old(w).st.names[q])
                    && !final(w).st.names.contains_key(p.text()) && old(w).st.names.contains_key(p.text())
                    && forall|q: Seq<char>| #[trigger] old(w).st.names.contains_key(q) && old(w).st.names[q] != old(w).st.names[p.text()] ==> final(w).st.names.contains_key(q),
        { unimplemented!() }
    }

    pub mod ffi {
        use vstd::prelude::*;
        use super::*;
        // a text of the operating system's; `OsStr` and `OsString` are one type here
        #[verifier::external_body]
        pub struct OsString { s: std::ffi::OsString }
        pub type OsStr = OsString;
        impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
        pub trait AsOs { spec fn os(&self) -> Seq<char>; }
        impl AsOs for str { open spec fn os(&self) -> Seq<char> { self@ } }
        impl AsOs for &str { open spec fn os(&self) -> Seq<char> { self@ } }
        impl AsOs for String { open spec fn os(&self) -> Seq<char> { self@ } }
        impl AsOs for &String { open spec fn os(&self) -> Seq<char> { self@ } }
        impl AsOs for OsString { open spec fn os(&self) -> Seq<char> { self@ } }
        impl AsOs for &OsString { open spec fn os(&self) -> Seq<char> { self@ } }
        impl OsString {
            #[verifier::external_body]
            pub fn new<S: AsOs + ?Sized>(s: &S) -> (r: &OsString) ensures r@ == s.os() { unimplemented!() }
            #[verifier::external_body]
            pub fn to_os_string(&self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body]
            pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
            #[verifier::external_body]
            pub fn push<S: AsOs>(&mut self, s: S) ensures final(self)@ == old(self)@ + s.os() { unimplemented!() }
        }
        impl core::cmp::PartialEq for OsString { #[verifier::external_body] fn eq(&self, o: &OsString) -> (r: bool) { unimplemented!() } }
        impl vstd::std_specs::cmp::PartialEqSpecImpl for OsString {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &OsString) -> bool { self@ == o@ }
        }
    }
    pub mod path {
        use vstd::prelude::*;
        use super::*;
        use super::ffi::*;
        #[verifier::external_body]
        pub struct PathBuf { s: std::path::PathBuf }
        pub type Path = PathBuf;
        impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
        pub trait AsPath { spec fn text(&self) -> Seq<char>; }
        impl AsPath for str { open spec fn text(&self) -> Seq<char> { self@ } }
        impl AsPath for &str { open spec fn text(&self) -> Seq<char> { self@ } }
        impl AsPath for String { open spec fn text(&self) -> Seq<char> { self@ } }
        impl AsPath for OsString { open spec fn text(&self) -> Seq<char> { self@ } }
        impl AsPath for &OsString { open spec fn text(&self) -> Seq<char> { self@ } }
        impl AsPath for PathBuf { open spec fn text(&self) -> Seq<char> { self@ } }
        impl AsPath for &PathBuf { open spec fn text(&self) -> Seq<char> { self@ } }
        pub uninterp spec fn file_name_of(p: Seq<char>) -> Option<Seq<char>>;
        pub uninterp spec fn extension_of(p: Seq<char>) -> Option<Seq<char>>;
        // std's path functions on texts: left open, but for what the axioms below say
        pub uninterp spec fn with_ext(p: Seq<char>, e: Seq<char>) -> Seq<char>;
        pub uninterp spec fn named(p: Seq<char>, n: Seq<char>) -> Seq<char>;
        pub uninterp spec fn pushed(p: Seq<char>, q: Seq<char>) -> Seq<char>;
        pub uninterp spec fn same_path(p: Seq<char>, q: Seq<char>) -> bool;
        // a directory, as a prefix of names; a name in it
        pub open spec fn dir_prefix(d: Seq<char>) -> bool { d.len() == 0 || d.last() == '/' }
        pub open spec fn plain(n: Seq<char>) -> bool {
            n.len() > 0 && !n.contains('/') && !n.contains('\0') && n.last() != '.' && !(n.len() >= 2 && n[0] == '.' && n[1] == '.')
        }
        // where the last dot of a name is; a dot in front does not count
        pub open spec fn last_dot(n: Seq<char>) -> int
            decreases n.len()
        {
            if n.len() == 0 { 0 } else if n.last() == '.' { n.len() - 1 } else { last_dot(n.drop_last()) }
        }
        pub axiom fn axiom_path(d: Seq<char>, n: Seq<char>, e: Seq<char>)
            requires dir_prefix(d), plain(n), !e.contains('/'),
            ensures
                file_name_of(d + n) == Some(n),
                extension_of(d + n) == (if last_dot(n) > 0 { Some(n.skip(last_dot(n) + 1)) } else { None }),
                with_ext(d + n, e) == d + (if last_dot(n) > 0 { n.take(last_dot(n)) } else { n }) + (if e.len() > 0 { "."@ + e } else { e }),
                d.len() > 0 ==> pushed(d, n) == d + n;
        pub axiom fn axiom_named()
            ensures named("./SRC_FILE.hff"@, ""@) == "./"@;
        pub axiom fn axiom_same_path(p: Seq<char>, q: Seq<char>)
            ensures same_path(p, p), same_path(p, q) ==> file_name_of(p) == file_name_of(q);
        impl PathBuf {
            #[verifier::external_body]
            pub fn from<S: AsPath>(s: S) -> (r: PathBuf) ensures r@ == s.text() { unimplemented!() }
            #[verifier::external_body]
            pub fn new<S: AsPath + ?Sized>(s: &S) -> (r: &PathBuf) ensures r@ == s.text() { unimplemented!() }
            #[verifier::external_body]
            pub fn file_name(&self) -> (r: Option<&OsStr>)
                ensures r is Some <==> file_name_of(self@) is Some, r is Some ==> (r->0)@ == file_name_of(self@)->0
            { unimplemented!() }
            #[verifier::external_body]
            pub fn extension(&self) -> (r: Option<&OsStr>)
                ensures r is Some <==> extension_of(self@) is Some, r is Some ==> (r->0)@ == extension_of(self@)->0
            { unimplemented!() }
            #[verifier::external_body]
            pub fn set_file_name<S: AsOs>(&mut self, s: S) ensures final(self)@ == named(old(self)@, s.os()) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_extension<S: AsOs>(&mut self, s: S) -> bool ensures final(self)@ == with_ext(old(self)@, s.os()) { unimplemented!() }
            #[verifier::external_body]
            pub fn with_extension<S: AsOs>(&self, s: S) -> (r: PathBuf) ensures r@ == with_ext(self@, s.os()) { unimplemented!() }
            #[verifier::external_body]
            pub fn with_file_name<S: AsOs>(&self, s: S) -> (r: PathBuf) ensures r@ == named(self@, s.os()) { unimplemented!() }
            #[verifier::external_body]
            pub fn join<S: AsPath>(&self, s: S) -> (r: PathBuf) ensures r@ == pushed(self@, s.text()) { unimplemented!() }
            #[verifier::external_body]
            pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body]
            pub fn push<S: AsPath>(&mut self, s: S) ensures final(self)@ == pushed(old(self)@, s.text()) { unimplemented!() }
            #[verifier::external_body]
            pub fn is_dir(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
                ensures final(w).st == (St { dirs: if r { old(w).st.dirs.insert(self@) } else { old(w).st.dirs }, ..old(w).st })
            { unimplemented!() }
            #[verifier::external_body]
            pub fn try_exists(&self, Tracked(w): Tracked<&mut World>) -> (r: io::Result<bool>)
                ensures
                    final(w).st == (St { tried: old(w).st.tried.insert(self@), ..old(w).st.did(r is Err, false) }),
                    r is Ok ==> r->Ok_0 == old(w).st.names.contains_key(self@),
            { unimplemented!() }
            // true only if it is there; false also when that cannot be told
            #[verifier::external_body]
            pub fn exists(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
                ensures
                    final(w).st == (St { tried: old(w).st.tried.insert(self@), ..old(w).st }),
                    r ==> old(w).st.names.contains_key(self@),
            { unimplemented!() }
        }
        impl core::cmp::PartialEq for PathBuf { #[verifier::external_body] fn eq(&self, o: &PathBuf) -> (r: bool) { unimplemented!() } }
        impl vstd::std_specs::cmp::PartialEqSpecImpl for PathBuf {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &PathBuf) -> bool { same_path(self@, o@) }
        }
        impl<'a> core::cmp::PartialEq<&'a PathBuf> for PathBuf { #[verifier::external_body] fn eq(&self, o: &&'a PathBuf) -> (r: bool) { unimplemented!() } }
        impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a PathBuf> for PathBuf {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &&'a PathBuf) -> bool { same_path(self@, o@) }
        }
    }
    pub mod time {
        use vstd::prelude::*;
        pub struct Instant { pub o: u8 }
        pub struct Duration { pub o: u8 }
        impl Instant {
            #[verifier::external_body]
            pub fn now() -> Instant { unimplemented!() }
            #[verifier::external_body]
            pub fn elapsed(&self) -> Duration { unimplemented!() }
        }
    }
    pub mod process {
        use vstd::prelude::*;
        use super::*;
        // leaving with success is saying that it all went well
        #[verifier::external_body]
        pub fn exit(code: i32, Tracked(w): Tracked<&mut World>) -> !
            requires
                code % 256 == 0 ==> !old(w).st.failed, // only: C21
                code % 256 == 0 ==> crate::vcli::finished(old(w).st) || crate::vcli::declined(old(w).st), // only: C18 C19 C20 C21
                code % 256 != 0 && !old(w).st.faulty ==> crate::vcli::excused(old(w).st), // only: C18 C19 C20 C23
            ensures false,
        { unimplemented!() }
    }
    pub mod clap {
        use vstd::prelude::*;
        use super::*;
        #[verifier::external_body]
        pub struct ArgMatches { s: u8 }
        impl ArgMatches {
            pub uninterp spec fn arg(&self, name: Seq<char>) -> Option<Seq<char>>;
            pub uninterp spec fn flag(&self, name: Seq<char>) -> bool;
            #[verifier::external_body]
            pub fn value_of(&self, name: &str) -> (r: Option<&str>)
                ensures r is Some <==> self.arg(name@) is Some, r is Some ==> (r->0)@ == self.arg(name@)->0
            { unimplemented!() }
            #[verifier::external_body]
            pub fn is_present(&self, name: &str) -> (r: bool) ensures r == self.flag(name@) { unimplemented!() }
        }
        // the program's description of its command line, res/cli.yml: trusted to mean what
        // `asked` says, and that the program does not come back when it is not followed
        #[verifier::external_body]
        pub struct Yaml { s: u8 }
        impl Yaml { pub uninterp spec fn name(&self) -> Seq<char>; }
        #[verifier::external_body]
        pub fn yaml(p: &str) -> (r: Yaml) ensures r.name() == p@ { unimplemented!() }
        #[verifier::external_body]
        pub fn crate_text() -> &'static str { unimplemented!() }
        #[verifier::external_body]
        pub struct App { s: u8 }
        impl App {
            pub uninterp spec fn of(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn from_yaml(y: Yaml) -> (r: App) ensures r.of() == y.name() { unimplemented!() }
            #[verifier::external_body]
            pub fn name(self, s: &str) -> (r: App) ensures r.of() == self.of() { unimplemented!() }
            #[verifier::external_body]
            pub fn version(self, s: &str) -> (r: App) ensures r.of() == self.of() { unimplemented!() }
            #[verifier::external_body]
            pub fn author(self, s: &str) -> (r: App) ensures r.of() == self.of() { unimplemented!() }
            #[verifier::external_body]
            pub fn about(self, s: &str) -> (r: App) ensures r.of() == self.of() { unimplemented!() }
            #[verifier::external_body]
            pub fn get_matches(self, Tracked(w): Tracked<&mut World>) -> (r: ArgMatches)
                ensures *final(w) == *old(w), self.of() == "../res/cli.yml"@ ==> crate::vcli::asked(r, old(w).st.job)
            { unimplemented!() }
        }
    }
    pub use crate::stdx::axiom_vec_bytes;
    // texts
    #[verifier::external_body]
    pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
    pub open spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
    pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_char(c)) }
    pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
    pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
    pub open spec fn decimal(s: Seq<char>) -> int
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { 10 * decimal(s.drop_last()) + (s.last() as int - '0' as int) }
    }
    pub uninterp spec fn full_lower(s: Seq<char>) -> Seq<char>;
    pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
    // no other character's lower case starts with y
    pub axiom fn axiom_lower_y(s: Seq<char>)
        ensures begins(full_lower(s), "y"@) == agrees(s);
    pub assume_specification[str::to_ascii_lowercase](s: &str) -> (r: String)
        ensures r@ == lower(s@);
    pub assume_specification[str::to_lowercase](s: &str) -> (r: String)
        ensures r@ == full_lower(s@);
    pub assume_specification[char::is_ascii_digit](c: &char) -> (r: bool)
        ensures r == is_digit(*c);
    pub uninterp spec fn parsed<F>(s: Seq<char>) -> Option<F>;
    // digits are read as a number, if it fits
    pub axiom fn axiom_parsed(s: Seq<char>)
        ensures
            all_digits(s) && s.len() > 0 ==> parsed::<usize>(s) == (if decimal(s) <= usize::MAX { Some(decimal(s) as usize) } else { None }),
            s.len() == 0 ==> parsed::<usize>(s) is None;
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExParseIntError(core::num::ParseIntError);
    #[verifier::external_trait_specification]
    pub trait ExFromStr: Sized {
        type ExternalTraitSpecificationFor: core::str::FromStr;
        type Err;
        fn from_str(s: &str) -> core::result::Result<Self, Self::Err>;
    }
    pub assume_specification<F: core::str::FromStr>[str::parse::<F>](s: &str) -> (r: core::result::Result<F, F::Err>)
        ensures r is Ok <==> parsed::<F>(s@) is Some, r is Ok ==> r->Ok_0 == parsed::<F>(s@)->0;
    pub assume_specification[usize::pow](a: usize, n: u32) -> (r: usize)
        requires vstd::arithmetic::power::pow(a as int, n as nat) <= usize::MAX,
        ensures r == vstd::arithmetic::power::pow(a as int, n as nat);
    pub assume_specification<T, A>[Vec::<T, A>::reserve_exact](v: &mut Vec<T, A>, n: usize)
        where A: std::alloc::Allocator,
        ensures final(v)@ == old(v)@;
    pub mod ext {
        use vstd::prelude::*;
        use super::*;
        pub trait VxText { spec fn vx_chars(&self) -> Seq<char>; fn vx_text(&self) -> (r: &str) ensures r@ == self.vx_chars(); }
        impl VxText for String {
            open spec fn vx_chars(&self) -> Seq<char> { self@ }
            fn vx_text(&self) -> (r: &str) { self.as_str() }
        }
        impl VxText for str {
            open spec fn vx_chars(&self) -> Seq<char> { self@ }
            fn vx_text(&self) -> (r: &str) { self }
        }
        pub trait VxStarts { spec fn vx_chars0(&self) -> Seq<char>; fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == begins(self.vx_chars0(), p@); }
        impl VxStarts for String {
            open spec fn vx_chars0(&self) -> Seq<char> { self@ }
            #[verifier::external_body]
            fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
        }
        impl VxStarts for str {
            open spec fn vx_chars0(&self) -> Seq<char> { self@ }
            #[verifier::external_body]
            fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
        }
        pub trait VxCollect: Sized {
            #[verifier::prophetic]
            spec fn vx_rest(&self) -> Seq<char>;
            fn vx_collect_string(self) -> (r: String) ensures r@ == self.vx_rest();
        }
        impl<'a> VxCollect for core::str::Chars<'a> {
            #[verifier::prophetic]
            open spec fn vx_rest(&self) -> Seq<char> { vstd::std_specs::iter::IteratorSpec::remaining(self) }
            #[verifier::external_body]
            fn vx_collect_string(self) -> (r: String) { self.collect::<String>() }
        }
    }
}
