use crate::refs::uax29;
use crate::scen::text::WB_FIRST;
use unic::segment::WordBounds;
pub fn words(n: usize) {
    let reps: Vec<(String, char)> = WB_FIRST.iter().map(|(c, s)| (format!("{:?}", c), s.chars().next().unwrap())).collect();
    let k = reps.len();
    let mut bad: Vec<Vec<usize>> = vec![];
    for len in 1..=n {
        let total = k.pow(len as u32);
        let (mut f, mut b) = (0, 0);
        for x in 0..total {
            let mut v = vec![];
            let mut y = x;
            for _ in 0..len { v.push(y % k); y /= k; }
            let s: String = v.iter().map(|&i| reps[i].1).collect();
            let bounds = uax29::word_boundaries(&s);
            let want: Vec<&str> = bounds.windows(2).map(|w| &s[w[0]..w[1]]).collect();
            let fw: Vec<&str> = WordBounds::new(&s).collect();
            let mut bw: Vec<&str> = WordBounds::new(&s).rev().collect();
            bw.reverse();
            let fb = fw != want; let bb = bw != want;
            if fb { f += 1 } if bb { b += 1 }
            if (fb || bb) && !bad.iter().any(|o| v.windows(o.len()).any(|w| w == &o[..])) {
                println!("{} {} {} : want {:?} fwd {:?} bwd {:?}", if fb {"F"} else {" "}, if bb {"B"} else {" "}, v.iter().map(|&i| reps[i].0.clone()).collect::<Vec<_>>().join(" "), want.iter().map(|x|x.chars().count()).collect::<Vec<_>>(), fw.iter().map(|x|x.chars().count()).collect::<Vec<_>>(), bw.iter().map(|x|x.chars().count()).collect::<Vec<_>>());
                bad.push(v.clone());
            }
        }
        println!("len {} total {} fwd bad {} bwd bad {}", len, total, f, b);
    }
}
