"""What decides each property: the modules woven for it, the functions whose
obligations are its own, the bounded stand-in and the level claimed."""

MODES = {}

BASE = ["bit"]

H = "codec::hilbertc::"
HILBERT = ["bit", "ser", "utils", "huf", "zip::dict", "zip::back", "zip", "geom", "hilbert", "codec", "codec::hufc", "codec::hilbertc"]
CC = "codec::clusterc::"
CLUSTER = ["bit", "ser", "utils", "huf", "geom", "kmeans", "codec", "codec::hufc", "codec::clusterc"]
ALL = ["bit", "ser", "utils", "huf", "zip::dict", "zip::back", "zip", "geom", "hilbert", "kmeans", "codec", "codec::hufc", "codec::zipc", "codec::hilbertc", "codec::clusterc"]
WITH_ANY = ALL + ["codec::any"]
# the curve, without the two traversals only the CSV dump uses (C13 has them)
HIL = ["hilbert::iter", "hilbert::from_matrix", "hilbert::linearize_rect", "hilbert::<T as Matrix"]
HUF = ["huf::encode_all", "huf::decode_all", "huf::<Bin", "huf::<Dec", "huf::<Enc", "huf::Bin", "huf::Dec", "huf::Enc"]

RULE = ("cases are enumerated or drawn from VERIF_SEED by the jobs of harness/vh*.rs named in per_job; a case is "
        "non-trivial when its input exercises the mechanism the property is about (flag set by the job), and distinct "
        "when its input bytes and description differ")

NOTE_BOUNDED = "Functions without a contract are exercised by the bounded harness only; that part is a sample, not a proof."


def P(modules, own, level, note, bounded, **kw):
    return dict(modules=modules, own=own, level=level, level_note=note, bounded=bounded, rule=RULE, **kw)


# functions on a few values, and the harness job that goes through all of them
FINITE = {}
for _f in ("Bit::byte", "<u8 as From<&Bit>>::from", "push_bit", "nth", "bit_array", "bit_mask"):
    FINITE["bit::" + _f] = "finite: bit"
for _f in ("write", "write_byte", "pad_and_flush"):
    FINITE["bit::<IoBitWriter as WriteBit>::" + _f] = "finite: bit writer"
for _t in ("u8", "u16", "i16", "char"):
    for _f in ("Serialize>::serialize", "Deserialize>::deserialize"):
        FINITE["ser::<%s as %s" % (_t, _f)] = "finite: ser"

PROPS = {
    "C01": P(["bit", "ser", "utils", "huf", "codec", "codec::hufc"], ["codec::hufc::", "codec::create_image_buffer_standard", "bit::", "ser::", "utils::count_freqs"] + HUF, "proof",
             "codec::hufc and everything it calls (codec::Codec's helpers, huf, ser, bit) are under contract and every obligation is discharged: whatever encode writes, "
             "decode reads back as an RGB image with the same dimensions and pixels; encode succeeds whenever the writer does not fail. "
             "Assumes the contracts stated for the image crate (contracts/image.rs), BinaryHeap, HashMap, io::Write and the items listed in trusted_base; recursion depth is not bounded.",
             "cross-check only: images up to 300x300 of 12 kinds and all small shapes through the huffman codec, symbol sequences with chosen frequency tables through huf::encode_all/decode_all"),
    "C02": P(["bit", "ser", "utils", "zip::dict", "zip::back", "zip", "codec", "codec::zipc"], ["zip::dict::", "codec::zipc::", "codec::create_image_buffer_standard", "ser::", "utils::default_array"], "proof",
             "zip::dict, ser and the zip image codec are under contract and every obligation is discharged: for every byte sequence decoding the encoding gives the sequence back, also when something follows (theorem_lossless_tail), "
             "and the image codec's decode answers with the same dimensions and colours for whatever its encode writes. "
             "Assumes the contracts stated for the image crate (contracts/image.rs), Vec, io::Write, Iterator adapters and the items listed in trusted_base; allocation succeeds.",
             "cross-check only: all byte streams up to length 3-10 over small alphabets, random and self-similar streams up to 1e6 bytes, streams that exhaust the dictionary; images through zip(dict)"),
    "C03": P(["bit", "ser", "utils", "zip::dict", "zip::back", "zip", "codec", "codec::zipc"], ["zip::back::", "codec::zipc::", "codec::create_image_buffer_standard", "ser::", "utils::default_array"], "proof",
             "Every function of src/zip/back.rs and the zip image codec are under contract and every obligation is discharged: the symbols written expand to the input (zip_back_encode), the decoder yields what the bytes stand for (bdec), "
             "theorem_lossless joins the two for every byte sequence and whatever follows; the image codec's decode gives back the dimensions and colours. "
             "Assumes the contracts of HashMap, VecDeque, Iterator adapters, io::Write, the image crate and the items listed in trusted_base; positions stay below 2^63 (stays_small).",
             "cross-check only: all byte streams up to length 3-10 over small alphabets, random and self-similar streams, streams around the window and symbol-length limits; images through zip(back)"),
    "C04": P(HILBERT, [H + x for x in ("<Delta", "<DiffStream", "DiffStream", "<FromDiff", "FromDiff", "<SignedColor", "<Rgb as TryFrom")] + ["codec::create_image_buffer_standard", "bit::", "ser::", *HIL, "utils::count_freqs"] + HUF, "proof",
             "The delta codec (DiffStream, FromDiff, SignedColor and Delta's encode and decode) and everything it calls are under contract and every obligation is discharged: whatever encode writes, "
             "decode reads back as an image with the same dimensions and colours, and on such a file, complete or cut short, no sum leaves the range of a channel (sums_fit), so the unwrap in FromDiff does not panic. "
             "Assumes that zhang_hilbert scans every place of a rectangle once (axiom_scan; C13 enumerates it), the contracts of the image crate, BinaryHeap, HashMap, io::Write and the items listed in trusted_base; the size of memory and stack is not bounded.",
             "cross-check only: images of 12 kinds and all small shapes through the delta codec"),
    "C05": P(HILBERT, [H + x for x in ("<Hilbert", "<AbstractRle", "AbstractRle", "<Exact", "Exact", "rle_exact", "<RleDecoder", "RleDecoder")] + ["ser::", *HIL], "proof",
             "The Hilbert codec, AbstractRle, Exact and RleDecoder are under contract and every obligation is discharged: encode writes the dimensions and the runs of the colours along the curve, decode paints what the runs stand for, "
             "lemma_exact and lemma_same join the two; theorem_runs and theorem_neighbours state the counts, the cover and that neighbours differ. "
             "Assumes that zhang_hilbert scans every place of a rectangle once (axiom_scan; C13 enumerates it), that d == 0.0 is deterministic, the contracts of the image crate, Iterator adapters, io::Write and the items listed in trusted_base.",
             "cross-check only: images of 12 kinds, all small shapes, run lengths around 255 and its multiples", foreign=[(H + "<Hilbert", ("approx", "zip"))]),
    "C06": P(HILBERT, [H + "<Hilbert", "zip::dict::", "ser::", *HIL, "utils::default_array"], "proof",
             "The Hilbert codec, zip::dict, ser and deser_stream (iter::from_fn written out as a type) are under contract and every obligation is discharged: encode writes the dimensions and the compressed bytes of the colours along the curve, "
             "decode paints the colours that the decompressed bytes stand for; lemma_read, lemma_same and zip::dict::theorem_lossless_tail join the two. "
             "Assumes that zhang_hilbert scans every place of a rectangle once (axiom_scan; C13 enumerates it), the contracts of the image crate, Vec, Iterator adapters, io::Write and the items listed in trusted_base; allocation succeeds.",
             "cross-check only: images of 12 kinds and all small shapes through hilbert(zip)", foreign=[(H + "<Hilbert", ("approx", "exact", "rle"))]),
    "C07": P(["bit"], ["bit::"], "proof",
             "Every function of src/bit.rs is under contract and every obligation is discharged: bits packed in order for both bit orders, padding, flushing and reported counts, reading back. "
             "Assumes the contracts of io::Write::write_all, Iterator::flat_map over arrays and the items listed in trusted_base.",
             "cross-check only: enumerated interleavings of writer operations and random bit sequences"),
    "C08": P(["ser"], ["ser::"], "proof",
             "Every Serialize and Deserialize implementation and SerStream are under contract and every obligation is discharged; that values round-trip, that parsing ignores what follows and that every proper prefix is refused are lemmas over those contracts, for all types by induction. "
             "Assumes the integer byte conversions, io::Write::write_all and the items listed in trusted_base; usize is 64 bits.",
             "cross-check: boundary and random values of every serializable type with every prefix length and several suffixes; streams of items"),
    "C09": P(["bit", "ser", "utils", "huf"], ["huf::", "utils::count_freqs", "bit::"], "proof",
             "huf::encode_all, build, the trie, its iterator, the code table and the decoder are under contract and every obligation is discharged: "
             "each distinct symbol once in the trie, code words prefix-free, total length no more than that of any prefix-free code (Huffman's theorem and "
             "Kraft's inequality are proved as lemmas), payload the code words in input order, and theorem_lossless for decoding. build is verified at its only instance N = u64. "
             "Assumes the contracts of BinaryHeap, HashMap, io::Write, and the items listed in trusted_base; symbol types whose Hash/Eq/Clone are lawful; recursion depth is not bounded.",
             "cross-check only: frequency tables of several families up to 65536 symbols, compared with an independent optimal cost"),
    "C10": P(CLUSTER, ["kmeans::", "geom::", CC + "<ColorCount as", CC + "<ColorPos as Distance", CC + "<ColorPos as kmeans"], "proof",
             "Every function of src/kmeans.rs and both Point implementations are under contract and every obligation is discharged: for a non-empty collection and a positive count cluster returns min(count, points) clusters, none empty, "
             "holding together exactly the multiset of the points (partitioned), each centroid the mean of its cluster; no index, subtraction or unwrap on the way can fail, in particular none of those on distances (proved finite). "
             "Not proved: that the refinement loop ends (cluster is verified for partial correctness; the bounded part watches for it), that the round counter stays below 2^64 (few_rounds). f64 operations are uninterpreted functions with the axioms of contracts/fl.rs. "
             "Assumes the contracts of rand, sort, smallvec and Iterator adapters in contracts/rt.rs and the items listed in trusted_base; collections have fewer than 2^32 points (ColorCount: at most 2^24, the number of colours).",
             "termination, and a cross-check: point sets with ties and duplicates, up to 3000 points, counts from 1 to beyond the number of points"),
    "C11": P(CLUSTER, [CC + "ClusterColors", CC + "<ClusterColors", CC + "ColorCount", CC + "<ColorCount", CC + "color_table", "kmeans::", "geom::", "codec::hufc::", "codec::create_image_buffer_standard", "utils::count_freqs", "bit::", "ser::"] + HUF, "proof",
             "ClusterColors, ColorCount and everything they call (kmeans, Hufman, huf, ser, bit) are under contract and every obligation is discharged: encode writes the Huffman file of an image that is reduced(N, image) - same dimensions, at most N colours, "
             "equal colours stay equal, every channel within the range of the source's - and decode gives an image that is so too. "
             "Claimed for images of fewer than 2^32 pixels (beyond that the pixel count of a colour does not fit its u32). Not proved: termination of k-means (see C10). "
             "Assumes the contracts of the image crate, HashMap, BinaryHeap, io::Write, Iterator adapters and the items listed in trusted_base.",
             "termination, and a cross-check: images of 12 kinds, N from 1 to beyond the number of colours"),
    "C12": P(CLUSTER, [CC + "VoronoiCluster", CC + "<VoronoiCluster", CC + "ColorPos", CC + "<ColorPos", "kmeans::", "geom::", "ser::"], "proof",
             "VoronoiCluster, ColorPos and everything they call are under contract and every obligation is discharged: encode writes vor_file(dimensions, centroids) with exactly min(N, pixels) centroids inside the image and within the range of its colours (centred), "
             "decode of every such file, whoever wrote it, gives an image of those dimensions in which every pixel has the colour of a centroid nearest to it (drawn), and refuses every proper prefix. "
             "Claimed for images of fewer than 2^32 pixels. Not proved: termination of k-means (see C10). "
             "Assumes the contracts of the image crate, io::Write, Iterator adapters and the items listed in trusted_base.",
             "termination, and a cross-check: images of 12 kinds, N from 1 to beyond the number of pixels; independently built files"),
    "C13": P(["ser", "hilbert"], ["hilbert::"], "other",
             "src/hilbert.rs is under contract and every obligation is discharged: iter delivers the places of ArbHilbertScan32 in order, from_matrix and linearize_rect the pixels at those places, theorem_places that they are all places once; linearize_large and linearize_small deliver the pixels along the curve through a square around or inside the image (theorem_square_places: around it, every pixel once). "
             "That the dependency zhang_hilbert scans every place once (axiom_scan) is assumed there and enumerated here up to a bound, which is why the level is not proof.",
             "all sizes up to 40x40 and selected large ones"),
    "C14": P(WITH_ANY + ["prs", "codec::args_any", "codec::args_hufc", "codec::args_zipc", "codec::args_hilbertc", "codec::args_clusterc"],
             ["prs::", "codec::args_", "codec::any::<AnyCodec as From"], "proof",
             "Every function of src/prs.rs and every FromStr of a codec and of AnyCodec (macros expanded) are under contract and every obligation is discharged: fun_call answers for every string exactly when it is a name, a parenthesis and arguments, "
             "and cuts at the commas outside nested parentheses (theorem_pieces, theorem_unambiguous); from_str answers Ok with a codec that the string spells, and Err only if it spells none; theorem_one_codec: no string spells two. No operation in the verified code fails, for any string. "
             "Assumes what each of the six patterns given to regex matches (axiom_decimal, axiom_letters, axiom_hilbert, axiom_ccol, axiom_voronoi in contracts/text.rs; the harness compares them with the regex crate), the contracts of str, usize::from_str, f64::from_str and iterator adapters, and the items listed in trusted_base; memory suffices.",
             "cross-check only: documented spellings, their one-edit neighbours, generated calls with nested parentheses and non-ASCII text"),
    "C15": P(HILBERT, [H + x for x in ("<Hilbert", "<AbstractRle", "AbstractRle", "<Approx", "Approx", "RunningAvg", "as_f64", "<[f64;CHANNEL_COUNT]", "rle_approx", "<RleDecoder", "RleDecoder")] + ["ser::", *HIL, "geom::"], "proof",
             "The Hilbert codec, AbstractRle, Approx, RunningAvg, the distance and RleDecoder are under contract and every obligation is discharged: encode writes runs(approx_rule(d), mean_of(), colours along the curve); theorem_runs says that they cover the colours exactly, "
             "that every pixel but the first of a run satisfies the rule (within distance d of the mean before it) and that a run ends at 255, at the end or before a pixel that does not; decode shows the run colours at the run places. "
             "f64 operations are uninterpreted functions; assumed of them (contracts/fl.rs): sums of small whole numbers are exact, x/n of a mean is at most 255 and rounds half up. Assumes axiom_scan (C13), the contracts of the image crate, Iterator adapters, io::Write and the items listed in trusted_base.",
             "cross-check only: images of 12 kinds and distances from 0.25 to 500, run lengths around 255", foreign=[(H + "<Hilbert", ("exact", "zip"))]),
    "C16": P(WITH_ANY, ["bit::", "ser::", "huf::", "zip::", *HIL, "codec::"], "proof",
             "Codec::decode is under contract for every image codec: for every image, every complete encoding of it and every proper prefix of that, decode answers None; that it answers at all is what the absence of failing operations in the verified code says. "
             "Every obligation is discharged for Hufman, ZipBack/ZipDict, Hilbert (all flavours), Delta, ClusterColors, VoronoiCluster and AnyCodec (macros expanded). "
             "Where the code can panic on files no encoder writes (unwrap_if, may_panic_unless), it is proved not to on prefixes of encodings. "
             "Assumes axiom_scan (C13), the contracts of the image crate, Iterator adapters and the items listed in trusted_base; memory and stack suffice.",
             "cross-check only: every prefix of encodings of small images, sampled prefixes of larger ones, all codecs"),
    "C17": P(WITH_ANY, ["bit::", "ser::", "huf::", "zip::", "codec::"], "proof",
             "Codec::encode is under contract for every image codec over an arbitrary io::Write: success is answered only if the bytes accepted by the sink are a complete encoding, and no failure of the sink makes the code fail otherwise; "
             "every obligation is discharged for Hufman, ZipBack/ZipDict, Hilbert (all flavours), Delta, ClusterColors, VoronoiCluster and AnyCodec (macros expanded). "
             "Assumes the contract of io::Write (write_all accepts all bytes or answers an error; an error says nothing about the bytes accepted), termination of k-means, and the items listed in trusted_base.",
             "cross-check only: every failure position on small images, sampled ones on larger, refusal, short writes and failing flush, all codecs"),
    "C18": P(["bit", "ser", "utils", "zip::dict"], ["zip::dict::", "ser::", "utils::default_array"], "proof",
             "Every function of src/zip/dict.rs is under contract and every obligation is discharged: zip_dict_encode writes exactly the pairs of codes that the specification "
             "enc assigns from the 256 single-byte words, and DictDecoder yields exactly what the specification sdec reads from the bytes; theorem_lossless and theorem_size are lemmas over those. "
             "Assumes the contracts of Vec, io::Write, Iterator adapters and the items listed in trusted_base; allocation succeeds.",
             "cross-check only: streams compared with an independent encoder and decoder of the format, including dictionary exhaustion"),
    "C19": P(["bit", "ser", "utils", "zip::back"], ["zip::back::", "ser::", "utils::default_array"], "proof",
             "Every function of src/zip/back.rs is under contract and every obligation is discharged: zip_back_encode writes symbols that satisfy syms_ok (each a literal of 1 to 32767 bytes or a reference inside the data so far; theorem_references spells it out per symbol), "
             "and the decoder yields exactly bdec, in which a reference stands for the referenced bytes. "
             "Assumes the contracts of HashMap, VecDeque, Iterator adapters, io::Write and the items listed in trusted_base; positions stay below 2^63 (stays_small); nothing is claimed for symbols the format does not allow (well_formed).",
             "cross-check only: streams decoded by an independent decoder with range checks; independently built symbol streams decoded by the crate"),
}

NOT_APPLICABLE = {
    "C20": "The report is produced inside a rayon parallel pipeline that opens image files, writes CSV files and computes "
           "floating-point errors; Verus has no model of rayon's closures, of file I/O or of f64 arithmetic, so no contract on "
           "bench::measure_all can express or decide the property.",
}
