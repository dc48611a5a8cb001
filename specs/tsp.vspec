@source src/TimestampedPath.cpp McBopomofo
@extern world exists(std::string, &std::error_code) -> bool
@extern world is_directory(std::string, &std::error_code) -> bool
@extern world last_write_time(std::string, &std::error_code) -> std::filesystem::file_time_type
@include world.rs
@prelude
#[verifier::external_body]
pub fn ext_exists(w: Ghost<World>, p: Ghost<Seq<u8>>) -> (r: Ghost<(bool, int, World)>)
    ensures r@.2 == w@, r@.0 == w@.fs.dom().contains(p@)
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_is_directory(w: Ghost<World>, p: Ghost<Seq<u8>>) -> (r: Ghost<(bool, int, World)>)
    ensures r@.2 == w@, w@.fs.dom().contains(p@) ==> r@.0 == w@.fs[p@].dir
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_last_write_time(w: Ghost<World>, p: Ghost<Seq<u8>>) -> (r: Ghost<(int, int, World)>)
    ensures r@.2 == w@, w@.fs.dom().contains(p@) ==> match w@.fs[p@].mtime { Some(t) => r@.1 == 0 && r@.0 == t, None => r@.1 != 0 }
{ unimplemented!() }
// a file exists when the path is not empty and the file system says so without an error
pub open spec fn present(p: Seq<u8>, w: World) -> bool { p.len() > 0 && w.fs.dom().contains(p) }
// what is recorded: the modification time, or zero for an absent file and on errors
pub open spec fn stamp(p: Seq<u8>, w: World) -> int {
    if present(p, w) { match w.fs[p].mtime { Some(t) => t, None => 0 } } else { 0 }
}

@fn TimestampedPath_path
@ensures
- ret == this.path_

@fn TimestampedPath_pathExists
@opt world
@ensures
- ret == present(this.path_, w)
- this_post == this
- w_post == w

@fn TimestampedPath_pathIsFile
@opt world
@ensures
- ret == (present(this.path_, w) && !w.fs[this.path_].dir)
- this_post == this
- w_post == w

@fn TimestampedPath_timestampDifferentFromLastCheck
@opt world
@ensures
- ret == (this.timestamp_ != stamp(this.path_, w))
- this_post == this
- w_post == w

@fn TimestampedPath_checkTimestamp
@opt world
@ensures
- this_post.timestamp_ == stamp(this.path_, w)
- this_post.path_ == this.path_
- w_post == w

@post
// after recording, a repeated check reports a change exactly when existence or time changed
pub proof fn lemma_record_then_check(p: Seq<u8>, w1: World, w2: World)
    ensures w1 == w2 ==> stamp(p, w1) == stamp(p, w2),
        present(p, w1) && present(p, w2) && w1.fs[p].mtime is Some && w2.fs[p].mtime is Some && w1.fs[p].mtime != w2.fs[p].mtime ==> stamp(p, w1) != stamp(p, w2),
        present(p, w1) && !present(p, w2) && w1.fs[p].mtime is Some && w1.fs[p].mtime != Some(0int) ==> stamp(p, w1) != stamp(p, w2),
        !present(p, w1) && present(p, w2) && w2.fs[p].mtime is Some && w2.fs[p].mtime != Some(0int) ==> stamp(p, w1) != stamp(p, w2)
{ }
