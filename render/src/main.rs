mod anim;
mod dbg;
mod hist;
mod hostile;
mod ink;
mod pix;
mod place;
mod sel;
mod tags;
mod unit;
use vkit::{main_with, sub, Prop};

fn main() {
    std::env::set_var("HOME", format!("{}/render/home", std::env::var("VERIF_DIR").unwrap_or("/verif".into())));
    if std::env::args().nth(1).as_deref() == Some("serve-pixels") {
        return pix::serve();
    }
    let mut v = vec![];
    v.push(Prop { id: "R01", rule: "scripts with several event sections and event kinds, queried by one selector at times about their boundaries, comments switched, scripts exchanged; non-trivial: two different numbers of events on screen", subs: vec![sub("select", 200000, 3000000, sel::select)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R02", rule: "histories of frames, bitmaps and incremental frames of several scripts at times about their events, edits in place and changes of size; non-trivial: several pictures that show something", subs: vec![sub("history", 600, 20000, hist::history)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R04", rule: "scripts whose styles, tags, drawings, effects and settings hold numbers from ordinary to absurd, on small screens at any time; non-trivial: something was shown", subs: vec![sub("render", 4000, 200000, hostile::render)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R05", rule: "coverage tiles and bitmaps of every size put anywhere on and off frames, pixels over pixels, and pictures blurred by every deviation; non-trivial: several pixels drawn, a partly clear pixel, or a picture of several colours", subs: vec![sub("compose", 120000, 3000000, pix::compose), sub("blend", 400000, 20000000, pix::blend), sub("blur", 40000, 800000, pix::blur)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R06", rule: "closed contours of lines and curves of every shape and winding, within the bitmap and over its borders; non-trivial: several partly covered pixels, or a curved shape with an inside", subs: vec![sub("polygons", 120000, 4000000, pix::polygons), sub("tiles", 40000, 1200000, pix::tiles)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R07", rule: "texts of runs and override blocks of every tag, well formed and malformed, nested and reset, and drawings of every command; non-trivial: several blocks about several runs, several tags, or several commands", subs: vec![sub("segments", 600000, 8000000, tags::segments), sub("events", 400000, 6000000, tags::events), sub("drawing", 400000, 6000000, tags::drawing)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R08", rule: "tracks, tags and transforms of every kind, timing and acceleration, at times about their ends and between; non-trivial: a value under way, or a tag that animates", subs: vec![sub("tracks", 120000, 4000000, anim::tracks), sub("tags", 120000, 4000000, anim::tags), sub("transforms", 120000, 4000000, anim::transforms)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R09", rule: "boxes of several layers and alignments put one after another on screens of every size, and lists of events of every priority; non-trivial: at least one box had to move", subs: vec![sub("collide", 150000, 6000000, unit::collide), sub("smart", 100000, 4000000, unit::smart)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R10", rule: "histories of stores, reads and clears on caches of every size, of allocations and writes on atlases, and of layers drawn one after another that differ in one thing; non-trivial: several keys and a hit, several regions written, or several layers that show something", subs: vec![sub("cache", 200000, 8000000, unit::render_cache), sub("atlas", 150000, 6000000, unit::atlas), sub("twins", 3000, 200000, ink::twins)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R11", rule: "positions, margins, alignments, movements and matrices over screens of every size; non-trivial: a box with an area and several lines, or a point off the axes", subs: vec![sub("layout", 120000, 5000000, unit::layout), sub("geometry", 120000, 5000000, unit::geometry)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R12", rule: "frames of every size and timestamp, copied and changed, and rectangles about one another and about the largest coordinates; non-trivial: several pixels, or rectangles that overlap", subs: vec![sub("frames", 150000, 2000000, unit::frames), sub("regions", 200000, 3000000, unit::regions)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R13", rule: "scripts of styles and events of runs, tags and breaks, put through the pipeline at times in and about them; non-trivial: several runs, several lines, or several events on screen", subs: vec![sub("runs", 16000, 1000000, place::runs), sub("wrapped", 4000, 600000, place::wrapped), sub("stacked", 4000, 600000, place::stacked)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R14", rule: "layers of text, drawings and pixels with every effect, on and over the edges of the screen; non-trivial: several effects and something shown", subs: vec![sub("text", 2000, 100000, ink::text), sub("vector", 2000, 100000, ink::vector), sub("stack", 3000, 100000, ink::stack)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R15", rule: "pictures of blobs looked at by the inspector and analyser, histories of a player over scripts of drawings, frames traced at any time, and parameters of every kind; non-trivial: more than five pixels shown, several pictures, or several parameters", subs: vec![sub("inspect", 20000, 2000000, dbg::inspect), sub("player", 800, 60000, dbg::player), sub("traced", 800, 60000, dbg::traced), sub("params", 60000, 2000000, dbg::params)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "R16", rule: "histories of scripts that embed faces under names of their own, in one section or several, used by styles and tags; non-trivial: text in an embedded family shown", subs: vec![sub("embedded", 500, 40000, hist::embedded)], known: vec![], assumptions: &[] });
    main_with(v)
}
