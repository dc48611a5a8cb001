@source src/Engine/MemoryMappedFile.cpp McBopomofo
@cstruct stat st_size:long
@extern world open(char *, int) -> int
@extern world close(int) -> int
@extern world fstat(int, &stat) -> int
@extern world mmap(void *, unsigned long, int, int, int, long) -> void *
@extern world munmap(void *, unsigned long) -> int
@include world.rs
@prelude
#[verifier::external_body]
pub fn ext_open(w: Ghost<World>, path: Ghost<It<u8>>, flags: Ghost<int>) -> (r: Ghost<(int, World)>)
    ensures r@.0 == -1 ==> r@.1 == w@, readable(w@, cpath(path@)) ==> r@.0 != -1,
        r@.0 != -1 ==> r@.0 >= 0 && !w@.fds.dom().contains(r@.0) && w@.fs.dom().contains(cpath(path@))
            && w@.fs[cpath(path@)].content.len() < 0x7FFFFFFFFFFFFFFF
            && r@.1 == (World { fds: w@.fds.insert(r@.0, w@.fs[cpath(path@)].content), ..w@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_close(w: Ghost<World>, fd: Ghost<int>) -> (r: Ghost<(int, World)>)
    requires w@.fds.dom().contains(fd@)
    ensures r@.1 == (World { fds: w@.fds.remove(fd@), ..w@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_fstat(w: Ghost<World>, fd: Ghost<int>) -> (r: Ghost<(int, stat, World)>)
    requires w@.fds.dom().contains(fd@)
    ensures r@.2 == w@, r@.0 == 0 || r@.0 == -1, w@.healthy ==> r@.0 == 0, r@.0 == 0 ==> r@.1.st_size == w@.fds[fd@].len()
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_mmap(w: Ghost<World>, addr: Ghost<It<u8>>, n: Ghost<int>, prot: Ghost<int>, flags: Ghost<int>, fd: Ghost<int>, off: Ghost<int>) -> (r: Ghost<(It<u8>, World)>)
    requires w@.fds.dom().contains(fd@)
    ensures r@.0 == it_fail() ==> r@.1 == w@, w@.healthy && n@ > 0 && off@ == 0 && addr@.nil ==> r@.0 != it_fail(),
        r@.0 != it_fail() ==> n@ > 0 && !r@.0.nil && r@.0.off == 0 && r@.0.buf.len() == n@
            && (off@ == 0 && n@ == w@.fds[fd@].len() ==> r@.0.buf == w@.fds[fd@])
            && r@.1 == (World { maps: w@.maps.insert(r@.0), ..w@ })
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_munmap(w: Ghost<World>, p: Ghost<It<u8>>, n: Ghost<int>) -> (r: Ghost<(int, World)>)
    requires w@.maps.count(p@) > 0, p@.buf.len() == n@
    ensures r@.1 == (World { maps: w@.maps.remove(p@), ..w@ })
{ unimplemented!() }
// an object without a file
pub open spec fn closed(o: MemoryMappedFile) -> bool { o.data_.nil && o.fd_ == -1 && o.length_ == 0 }
// an object that owns a descriptor and a live mapping of exactly the file's length
pub open spec fn owns(o: MemoryMappedFile, w: World) -> bool {
    !o.data_.nil && o.data_.off == 0 && o.length_ == o.data_.buf.len() && o.length_ > 0
    && w.fds.dom().contains(o.fd_) && w.fds[o.fd_] == o.data_.buf && w.maps.count(o.data_) > 0
}
pub open spec fn ok(o: MemoryMappedFile, w: World) -> bool { closed(o) || owns(o, w) }
// the world without what the object owns
pub open spec fn without(o: MemoryMappedFile, w: World) -> World {
    if o.data_.nil { w } else { World { fds: w.fds.remove(o.fd_), maps: w.maps.remove(o.data_), ..w } }
}
pub open spec fn same(a: World, b: World) -> bool { a.fds =~= b.fds && a.maps =~= b.maps && a.fs == b.fs && a.healthy == b.healthy }
// two objects that own different things
pub open spec fn apart(o: MemoryMappedFile, p: MemoryMappedFile, w: World) -> bool {
    o.data_.nil || p.data_.nil || (o.fd_ != p.fd_ && (o.data_ == p.data_ ==> w.maps.count(o.data_) >= 2))
}
// releasing what one object owns leaves every other object intact
pub proof fn lemma_release_frames(o: MemoryMappedFile, p: MemoryMappedFile, w: World, w2: World)
    requires ok(o, w), ok(p, w), apart(o, p, w), same(w2, without(o, w))
    ensures ok(p, w2)
{ assert(w2.maps.count(p.data_) == without(o, w).maps.count(p.data_)); }
// opening one object leaves every other object intact and apart from it
pub proof fn lemma_open_frames(o: MemoryMappedFile, p: MemoryMappedFile, w: World, w2: World)
    requires ok(p, w), owns(o, w2), same(without(o, w2), w), !w.fds.dom().contains(o.fd_)
    ensures ok(p, w2), apart(o, p, w2)
{
    assert(w2.maps.count(p.data_) >= w.maps.count(p.data_)) by { assert(without(o, w2).maps.count(p.data_) == w.maps.count(p.data_)); }
    if !p.data_.nil {
        assert(w.fds.dom().contains(p.fd_));
        assert(without(o, w2).fds.dom().contains(p.fd_));
        assert(without(o, w2).fds[p.fd_] == w.fds[p.fd_]);
        if o.data_ == p.data_ { assert(without(o, w2).maps.count(p.data_) == w.maps.count(p.data_)); }
    }
}

@fn MemoryMappedFile_open
@opt world
@requires
- ok(this, w)
@ensures
- ok(this_post, w_post)
- ret ==> !this_post.data_.nil && w.fs.dom().contains(cpath(path)) && this_post.data_.buf == w.fs[cpath(path)].content && closed(this) && same(without(this_post, w_post), w) && !w.fds.dom().contains(this_post.fd_)
- !ret ==> (this_post == this || closed(this) && closed(this_post)) && same(w_post, w)
- !this.data_.nil ==> !ret
- closed(this) && readable(w, cpath(path)) ==> ret

@fn MemoryMappedFile_close
@opt world
@requires
- ok(this, w)
@ensures
- closed(this_post)
- same(w_post, without(this, w))

@fn MemoryMappedFile_ctor/1
@opt rvalue_out
@ensures
- ret.data_ == other.data_ && ret.fd_ == other.fd_ && ret.length_ == other.length_
- closed(other_post)

@fn MemoryMappedFile_op_assign
@opt world
@opt rvalue_out
@requires
- ok(this, w)
- closed(this) || closed(other) || this.fd_ != other.fd_
@ensures
- this_post.data_ == other.data_ && this_post.fd_ == other.fd_ && this_post.length_ == other.length_
- closed(other_post)
- same(w_post, without(this, w))

@fn MemoryMappedFile_dtor
@opt world
@requires
- ok(this, w)
@ensures
- same(w_post, without(this, w))

@fn MemoryMappedFile_data
@ensures
- ret == this.data_

@fn MemoryMappedFile_length
@ensures
- ret == this.length_
