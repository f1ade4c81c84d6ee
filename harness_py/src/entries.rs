pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_p27_text", py::h_p27_text),
    ("h_p27_struct", py::h_p27_struct),
    ("h_p27_any", py::h_p27_any),
    ("h_p29_ascii", py::h_p29_ascii),
    ("h_p29_class", py::h_p29_class),
    ("h_p29_markers", py::h_p29_markers),
    ("h_p29_size", py::h_p29_size),
    ("h_p29_again", py::h_p29_again),
    ("h_p27_size", py::h_p27_size),
    ("h_p27_again", py::h_p27_again),
];
