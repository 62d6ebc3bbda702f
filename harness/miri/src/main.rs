//! Several threads use the library for the first time at once. Run under Miri,
//! which reports data races and undefined behaviour.

use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sounds::*;
use bae_rs::utils::*;
use bae_rs::*;
use std::sync::{Arc, Barrier};
use std::time::Duration;

fn run(g: &mut dyn Generator, n: usize) -> usize {
    let mut k = 0;
    for _ in 0..n {
        k += g.process().is_finite() as usize;
    }
    k
}

fn modify(m: &mut dyn Modifier, n: usize) -> usize {
    let mut k = 0;
    for i in 0..n {
        k += m.process((i % 3) as f32 * 0.5 - 0.5).is_finite() as usize;
    }
    k
}

fn ms(n: u64) -> Duration {
    Duration::from_micros(100 * n)
}

fn use_all(which: usize) -> usize {
    let mut k = 0;
    for j in 0..4 {
        k += match (which + j) % 4 {
            0 => {
                let mut s = Sine::new(440.0);
                let mut n = run(&mut s, 4);
                s.set_frequency(1000.0);
                n += run(&mut s.clone(), 4);
                n + run(&mut Square::new(100.0), 4) + run(&mut Sawtooth::new(100.0), 4) + run(&mut Triangle::new(100.0), 4)
            }
            1 => {
                let mut n = run(&mut Noise::new(), 4) + run(&mut Zero::new(), 2);
                let t: MonoTrackT = (0..6).map(|i| Mono { mono: i as f32 }).collect();
                let mut w = MonoWav::from_track(24000.0, t);
                n += run(&mut w, 14);
                let mut b = Vec::new();
                write_wav(vec![vec![0.5; 3]; 2], 24, &mut b, true).expect("written");
                n += read_wav(&mut &b[..]).expect("read").1.len();
                let mut t = vec![0.1, 0.5, -0.2];
                normalize(-3.0, &mut t);
                n + t.len()
            }
            2 => {
                modify(&mut ADSR::new(ms(1), ms(1), -6.0, ms(1)), 3)
                    + modify(&mut BandPass::new(1000.0, 1.0), 3)
                    + modify(&mut Delay::new(ms(1)), 3)
                    + modify(&mut Echo::new(ms(1), 0.5), 3)
                    + modify(&mut Envelope::new(20.0, 1000.0), 3)
                    + modify(&mut Gain::new(0.5), 3)
                    + modify(&mut HighPass::new(1000.0, 0.5), 3)
                    + modify(&mut LowPass::new(1000.0, 0.5), 3)
                    + modify(&mut Passthrough::new(), 3)
            }
            _ => {
                let mut c = StandardChannel::<Stereo>::new(0.5);
                c.set_process_time(ms(1));
                let mut s = SimpleSound::new(1.0, 0.5, Arc::new(StandardBlock::from_generator(Sine::new(300.0))));
                s.extend_modifiers(vec![Arc::new(StandardBlock::from_modifier(LowPass::new(500.0, 0.1)))]);
                let mut s: Arc<dyn Sound> = Arc::new(s);
                c.add_sound(&mut s);
                let id = s.get_id().expect("registered");
                drop(s);
                let mut x = ComplexSound::new(1.0, 1.0);
                let b = x.add_block(Arc::new(StandardBlock::from_generator(Sine::new(300.0))));
                x.add_connection(x.get_input_gain(), b);
                x.add_connection(b, x.get_output_gain());
                let mut x: Arc<dyn Sound> = Arc::new(x);
                c.add_sound(&mut x);
                drop(x);
                c.process();
                c.remove_sound(id);
                c.process();
                c.get_output().len()
            }
        };
    }
    k
}

fn main() {
    // Only built and started.
    if std::env::args().count() > 1 {
        return;
    }
    let b = Arc::new(Barrier::new(4));
    let hs: Vec<_> = (0..4)
        .map(|i| {
            let b = b.clone();
            std::thread::spawn(move || {
                b.wait();
                // The sine table first, by most of them.
                let which = if i < 3 { 0 } else { 3 };
                use_all(which)
            })
        })
        .collect();
    let n: usize = hs.into_iter().map(|h| h.join().expect("thread")).sum();
    println!("samples {}", n);
}
