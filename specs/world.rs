verus! {
// the process and the files it sees: open descriptors (each with the content of the file it is open
// on), the multiset of live mappings, and for every path what the file system answers about it
pub struct Node { pub dir: bool, pub content: Seq<u8>, pub mtime: Option<int> }
// healthy: no system call on an existing, non-empty regular file fails
pub struct World { pub healthy: bool, pub fds: Map<int, Seq<u8>>, pub maps: vstd::multiset::Multiset<It<u8>>, pub fs: Map<Seq<u8>, Node> }
// the path a NUL-terminated string names (paths contain no NUL)
pub open spec fn cpath(p: It<u8>) -> Seq<u8> { if p.nil || p.off < 0 || p.buf.len() < p.off + 1 { Seq::empty() } else { p.buf.subrange(p.off, p.buf.len() - 1) } }
pub open spec fn readable(w: World, p: Seq<u8>) -> bool { w.healthy && w.fs.dom().contains(p) && !w.fs[p].dir && w.fs[p].content.len() > 0 }
}
