// generated by tools/gen_literals.py
#[cfg(not(feature = "badlit"))]
pub fn bad() -> Vec<(&'static str, &'static str, fn() -> Vec<u8>)> {
    vec![]
}

#[cfg(feature = "badlit")]
pub fn bad() -> Vec<(&'static str, &'static str, fn() -> Vec<u8>)> {
    let mut v: Vec<(&'static str, &'static str, fn() -> Vec<u8>)> = vec![];
    v.push(("hash_256", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8Gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8Gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8f/49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8f/49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb:9ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb:9ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb4@ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb4@ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49`cf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49`cf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49c{f17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49c{f17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49cc[17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49cc[17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf 7dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf 7dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf1-dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf1-dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17+fdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17+fdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dxdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dxdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfzcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfzcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfd~c9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfd~c9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdc!9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdc!9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdccg526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdccg526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9G26dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9G26dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc95/6dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc95/6dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc952:dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc952:dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526@ec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526@ec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526d`c6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526d`c6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526de{6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526de{6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec[ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec[ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6 e8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6 e8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6e-8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6e-8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee+a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee+a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8x5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8x5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8azcca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8azcca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5~ca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5~ca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5c!a20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5c!a20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5ccg20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5ccg20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5ccaG0ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5ccaG0ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca2/ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca2/ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20:f8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20:f8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20f@8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20f@8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff`247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff`247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8{47302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8{47302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff82[7302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff82[7302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff824 302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff824 302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247-02053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247-02053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff82473+2053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff82473+2053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff824730x053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff824730x053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302z53d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302z53d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff82473020~3d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff82473020~3d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff824730205!d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff824730205!d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053g3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053g3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053dG777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053dG777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3/77410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3/77410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d37:7410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d37:7410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d377@410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d377@410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777`10b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777`10b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d37774{0b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d37774{0b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d377741[b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d377741[b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410 9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410 9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b-b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b-b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9+0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9+0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9bx494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9bx494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0z94ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0z94ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b04~4ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b04~4ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b049!ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b049!ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ga8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ga8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bG8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bG8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba/c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba/c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8:", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8:")).to_vec()));
    v.push(("address", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f0", || AsRef::<[u8]>::as_ref(&sia::address!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f0")).to_vec()));
    v.push(("address", "8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f0", || AsRef::<[u8]>::as_ref(&sia::address!("8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f0")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8cDf32abEe86f0", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8cDf32abEe86f0")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagcDf32abEe86f0", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagcDf32abEe86f0")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8gDf32abEe86f0", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8gDf32abEe86f0")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f00", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f00")).to_vec()));
    v.push(("address", "", || AsRef::<[u8]>::as_ref(&sia::address!("")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f000", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f000")).to_vec()));
    v.push(("address", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f08fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f0", || AsRef::<[u8]>::as_ref(&sia::address!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f08fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8cDf32abEe86f0")).to_vec()));
    v.push(("hash_256", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0")).to_vec()));
    v.push(("hash_256", "", || AsRef::<[u8]>::as_ref(&sia::hash_256!("")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00")).to_vec()));
    v.push(("hash_256", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::hash_256!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siacoin_id", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siacoin_id", "8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0")).to_vec()));
    v.push(("siacoin_id", "", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00")).to_vec()));
    v.push(("siacoin_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siacoin_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siafund_id", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siafund_id", "8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0")).to_vec()));
    v.push(("siafund_id", "", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00")).to_vec()));
    v.push(("siafund_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::siafund_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("contract_id", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::contract_id!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("contract_id", "8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0")).to_vec()));
    v.push(("contract_id", "", || AsRef::<[u8]>::as_ref(&sia::contract_id!("")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00")).to_vec()));
    v.push(("contract_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::contract_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("transaction_id", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("transaction_id", "8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0")).to_vec()));
    v.push(("transaction_id", "", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00")).to_vec()));
    v.push(("transaction_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::transaction_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("block_id", "gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::block_id!("gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("block_id", "8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::block_id!("8gb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5ccag0ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494bagc")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0")).to_vec()));
    v.push(("block_id", "", || AsRef::<[u8]>::as_ref(&sia::block_id!("")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c00")).to_vec()));
    v.push(("block_id", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || AsRef::<[u8]>::as_ref(&sia::block_id!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c")).to_vec()));
    v.push(("public_key", "ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8", || sia::public_key!("ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8").as_ref().to_vec()));
    v.push(("public_key", "ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0", || sia::public_key!("ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c0").as_ref().to_vec()));
    v.push(("public_key", "", || sia::public_key!("").as_ref().to_vec()));
    v.push(("public_key", "8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "fd25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("fd25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "ed25519;8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("ed25519;8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "Ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("Ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "ed25518:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("ed25518:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "ed2551 :8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("ed2551 :8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "ed25519:gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("ed25519:gfb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g", || sia::public_key!("ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8g").as_ref().to_vec()));
    v.push(("public_key", "ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca2xff8247302053d3777410b9b0494ba8c", || sia::public_key!("ed25519:8fb49ccf17dfdcc9526dec6ee8a5cca2xff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "entropy:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("entropy:8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v.push(("public_key", "        8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c", || sia::public_key!("        8fb49ccf17dfdcc9526dec6ee8a5cca20ff8247302053d3777410b9b0494ba8c").as_ref().to_vec()));
    v
}
