p("C17", "Times within a film compare, add and convert exactly",
  "Two film times, whatever their editable-unit rates, compare as the moments they denote, and sums and differences are exact. "
  "Counts of editable units at any rate are exact where they can be and otherwise rounded in the direction asked for; times made from frame or second counts are the nearest there are, with every field in range. "
  "Text is read as what it says under either standard, malformed text is refused, and writing then reading gives the same time.",
  ["inputs"], "all pairs of times and rates up to days of length, all frame and second counts, all strings of both syntaxes and mutations of them",
  "Tests try some thirty fixed times, almost always with one common rate.",
  ["src/dcp_time.cc", "src/dcp_time.h"],
  [("string parser", "src/dcp_time.cc Time(string)"), ("comparison", "src/dcp_time.cc operator== operator< operator>"), ("arithmetic", "src/dcp_time.cc operator+ operator-"), ("conversion", "src/dcp_time.cc set, rebase, as_editable_units")],
  [("hours, minutes, seconds, editable units and their rate", "a moment from the start of the film", "src/dcp_time.h")],
  ["Time operators", "as_string", "as_editable_units_floor/ceil", "rebase"])

p("C18", "A written package describes its files truly and reads back the same",
  "After writing a package its asset map and packing list name exactly its compositions and the assets and fonts lying within its directory, each with its true path, type, size and hash, however often assets were rewritten, moved or shared between reels, compositions and packages. "
  "Reading it gives the same compositions, reels and references, resolves exactly the references whose files are there and reports each one that is not, and a search over several packages resolves references between them. "
  "Writing a package that was read leaves it equally true and readable.",
  ["inputs", "histories"], "all combinations of standards, kinds of content, places of files, sharing, encryption, embedded fonts and images, all orders of writing, rewriting, moving, reading and writing again",
  "Tests write a few fixed packages once and compare them with stored files; rewriting, sharing and moving are not tried.",
  ["src/dcp.cc", "src/pkl.cc", "src/asset_map.cc", "src/asset.cc", "src/search.cc", "src/ref.cc", "src/interop_text_asset.cc", "src/smpte_text_asset.cc", "src/font_asset.cc"],
  [("writing and reading of packages", "src/dcp.cc write_xml, read, resolve_refs"), ("packing list entries", "src/asset.cc add_to_pkl; src/interop_text_asset.cc"), ("asset map entries", "src/asset.cc add_to_assetmap; src/asset_map.cc"), ("hash cache", "src/asset.cc hash, set_file"), ("search", "src/search.cc find_and_resolve_cpls")],
  [("asset identity, file and hash", "what the packing list says of each asset", "src/asset.h"), ("references from reels to assets", "identity and perhaps the asset", "src/ref.h")],
  ["the XML files written, parsed independently", "DCP::cpls and assets", "verification notes of reading"])

p("C19", "Compositions keep everything set in them through writing and reading",
  "A composition's document states every field, rating, version, language, extension and marker that was set and every part of every reel with its details, and nothing else; metadata appears exactly when all that it must contain is known. "
  "Reading the document gives the same values back, and writing a composition that was read and not altered gives the same document again. "
  "Settings that make no sense are refused without effect.",
  ["inputs", "histories"], "all subsets of fields with arbitrary text, both standards and all profiles, all arrangements of parts and languages over reels, all sequences of setting, writing and reading",
  "Tests write a handful of compositions and compare them with stored text; no test reads and rewrites a composition with every field, or with languages spread over reels.",
  ["src/cpl.cc", "src/cpl.h", "src/reel.cc", "src/reel_asset.cc", "src/reel_file_asset.cc", "src/reel_picture_asset.cc", "src/reel_markers_asset.cc", "src/reel_text_asset.cc", "src/content_version.cc", "src/rating.cc", "src/extension_metadata.cc", "src/mca_sub_descriptor.cc"],
  [("writer", "src/cpl.cc write_xml, maybe_write_composition_metadata_asset"), ("reader", "src/cpl.cc CPL(path), read_composition_metadata_asset"), ("parts", "src/reel.cc; write_to_cpl and constructors of the reel assets")],
  [("fields of the composition", "text and numbers shown to projectionists and equipment", "src/cpl.h")],
  ["the XML written, parsed independently", "accessors of CPL, Reel and reel assets"])

p("C20", "Every part of a reel takes part in duration, encryption, keys and comparison",
  "Whatever parts a reel has, its duration, whether any or all of it is encrypted, and whether it can be read follow from all of its parts. "
  "Keys from every message given to it reach exactly the parts they are for, whether those are resolved before or after the message comes, and no others. "
  "Two reels are equal just when they have the same parts with equal content, within the tolerances asked for.",
  ["inputs", "histories"], "all sets of parts of either standard, encrypted or not, all orders of adding, resolving, giving keys and asking, all pairs of reels that differ in one part",
  "Tests have reels of picture and sound, or one subtitle; open captions, closed subtitles and keys that come before their assets are not tried together.",
  ["src/reel.cc", "src/reel.h", "src/reel_file_asset.cc", "src/reel_text_asset.cc", "src/j2k_transcode.cc"],
  [("keys", "src/reel.cc add(DecryptedKDM), give_kdm_to_assets, resolve_refs"), ("encryption", "src/reel.cc any_encrypted, all_encrypted"), ("comparison", "src/reel.cc equals"), ("duration", "src/reel.cc duration"), ("reading", "src/reel_file_asset.cc can_be_read")],
  [("parts of the reel", "what is shown and heard", "src/reel.h"), ("messages kept", "for assets resolved later", "src/reel.h")],
  ["Reel::duration, any_encrypted, all_encrypted, equals", "keys of the assets", "can_be_read"])

p("C21", "Key messages open for their recipient alone and stay true when rewritten",
  "A key message says what it was made from (keys, composition, window, devices, marking flags, text, recipient, signers), each key encrypted for its recipient in the standard layout, under a right signature that covers all of it. "
  "Its recipient gets back exactly those keys and nobody else gets any; reading, copying and writing it gives the same document with its signature still right. "
  "A message is made just when its window lies within those of the signing certificates, and one made from a composition holds the keys of exactly its encrypted parts.",
  ["inputs", "histories"], "all formulations, flags, device lists, kinds and numbers of keys, text, windows, recipients and chains; all sequences of sealing, writing, reading and opening; messages of other makers in both layouts",
  "Tests compare a few messages with stored ones; no test verifies the signature of a message that was read and written again.",
  ["src/encrypted_kdm.cc", "src/encrypted_kdm.h", "src/decrypted_kdm.cc", "src/decrypted_kdm.h", "src/decrypted_kdm_key.cc", "src/util.cc"],
  [("sealing", "src/decrypted_kdm.cc encrypt; src/encrypted_kdm.cc EncryptedKDM(signer, ...)"), ("reading and writing", "src/encrypted_kdm.cc data classes"), ("opening", "src/decrypted_kdm.cc DecryptedKDM(EncryptedKDM, string)"), ("messages for a composition", "src/decrypted_kdm.cc DecryptedKDM(cpl, ...)")],
  [("message in clear", "keys with window and text", "src/decrypted_kdm.h"), ("sealed message", "a signed document", "src/encrypted_kdm.h")],
  ["the XML of the message, parsed, decrypted and verified independently", "DecryptedKDM::keys", "exceptions"])

p("C22", "Chains are accepted, ordered and signed with exactly as the signatures allow",
  "However its certificates are given, a chain is accepted and put in order from root to leaf exactly when each one is really signed by the one above, and is valid exactly when the key it has is its leaf's; forged, foreign, repeated or unauthorised certificates make it no chain. "
  "A certificate tells the names, number, thumbprint and dates that are in it, and a chain made anew is one, with the names and lifetime asked for. "
  "Compositions and packing lists are signed by the leaf's key, over all of the document, and carry the chain.",
  ["inputs"], "all lists of genuine, forged, foreign, renewed and repeated certificates in every order with any key, names with any characters, any dates, both standards",
  "Tests have one fixed chain in a few orders; forgeries, impostors and names with special characters are not tried.",
  ["src/certificate_chain.cc", "src/certificate_chain.h", "src/certificate.cc", "src/certificate.h", "src/cpl.cc", "src/pkl.cc"],
  [("validity and order", "src/certificate_chain.cc chain_valid, root_to_leaf, private_key_valid"), ("facts of a certificate", "src/certificate.cc"), ("signing", "src/certificate_chain.cc sign, add_signature_value"), ("new chains", "src/certificate_chain.cc CertificateChain(openssl, ...)")],
  [("certificates and key", "who vouches for whom", "src/certificate_chain.h")],
  ["order, validity and text of chains", "accessors of certificates", "signed XML verified independently"])

p("C23", "Sound is stored sample for sample, however it is handed over",
  "However a sound is divided into calls, as integers or as fractions and with fewer channels than its file has, reading the file gives exactly those samples in order, limited to what 24 bits hold, with silence in whatever was not given. "
  "The file states its rates, channels, language and length; labels are on exactly the channels in use; a synchronisation channel counts the edit units and names the file; an encrypted file opens with its key alone; a failure to store is reported. "
  "Two sounds are equal exactly when they have the same form and length and no sample differs by more than the tolerance.",
  ["inputs", "histories"], "all divisions of samples into calls, all sample values, channel counts, edit and sampling rates, labels, both standards, with and without encryption and synchronisation; 16-bit sounds of other makers; all pairs that differ in one thing",
  "Tests write a few fixed sounds in one call and compare files; odd divisions, loud samples, high frame rates and 16-bit files are not tried.",
  ["src/sound_asset.cc", "src/sound_asset_writer.cc", "src/sound_asset_writer.h", "src/sound_frame.cc", "src/fsk.cc", "src/mxf.cc"],
  [("dividing into edit units", "src/sound_asset_writer.h do_write"), ("limits", "src/sound_asset_writer.h convert"), ("synchronisation", "src/sound_asset_writer.cc create_sync_packets"), ("labels", "src/sound_asset_writer.cc start"), ("reading", "src/sound_frame.cc get"), ("comparison", "src/sound_asset.cc equals")],
  [("edit unit being filled", "samples not yet stored", "src/sound_asset_writer.h")],
  ["samples of the file", "accessors of SoundAsset", "labels in the file", "SoundAsset::equals", "exceptions"])

p("C24", "Picture frames are stored and found again, also after an interruption",
  "The frames given for a picture, in two or three dimensions, or for immersive audio come back byte for byte and in order, and the file states their size, rate and number; where each picture frame is said to lie, it lies. "
  "Writing that was interrupted at any point can be taken up by passing over frames already there, as often as necessary, and gives the same pictures; a failure to store is reported, with a full disk reported as that. "
  "Nothing of an encrypted frame shows in its file, changes to it are noticed and it opens with its key alone; two pictures are equal exactly when their forms and lengths are and each pair of frames is near enough.",
  ["inputs", "histories", "crash_points"], "all sequences of frames of either eye, all interruptions and resumptions, all points of failure, all places at which a byte of a stored frame may change, all pairs of pictures that differ in frames, length, rate or dimensions",
  "Tests write fixed frames once; no test interrupts a three-dimensional picture, changes a stored frame or compares pictures of different lengths.",
  ["src/j2k_picture_asset.cc", "src/mono_j2k_picture_asset.cc", "src/mono_j2k_picture_asset_writer.cc", "src/stereo_j2k_picture_asset.cc", "src/stereo_j2k_picture_asset_writer.cc", "src/j2k_picture_asset_writer_common.cc", "src/mono_mpeg2_picture_asset_writer.cc", "src/atmos_asset.cc", "src/atmos_asset_writer.cc", "src/frame.h", "src/asset_reader.h", "src/crypto_context.h", "src/util.cc"],
  [("storing and passing over frames", "write and fake_write of the picture writers"), ("reading", "src/frame.h; src/mono_j2k_picture_frame.cc; src/stereo_j2k_picture_frame.cc"), ("encryption", "src/crypto_context.h"), ("comparison", "src/mono_j2k_picture_asset.cc, src/stereo_j2k_picture_asset.cc equals; src/j2k_picture_asset.cc"), ("failures", "src/util.cc maybe_throw_from_asdcplib")],
  [("frames written", "number of edit units and next eye", "src/stereo_j2k_picture_asset_writer.h")],
  ["frames of the file", "bytes of the file", "FrameInfo", "equals", "exceptions"])

p("C25", "Subtitles and captions show what their documents say, written and read",
  "Reading a subtitle or caption document of either standard gives exactly the texts it shows: the words, and for each its times, fades, place, depth, font features, space and ruby characters as the elements around it lay down; one that cannot be understood is an error. "
  "A document written for given texts shows those texts, in order of time and from the top down, and reading it again gives them, with the images, fonts and header; encrypted, it shows nothing and opens with its key alone, and a failure to store is an error. "
  "The texts seen in a period and the duration are those of the texts, and two assets are equal exactly when their texts, fonts and headers are.",
  ["inputs", "histories"], "all documents (any nesting of fonts, any order of words, spaces, ruby characters, comments and fonts in a line, all spellings), all lists of strings and images, all pairs of assets, all points of failure",
  "Tests read and write a few fixed documents and compare bytes; no test nests fonts, puts markup between words or compares what a written document shows with what was given.",
  ["src/text_asset.cc", "src/text_asset.h", "src/text_asset_internal.cc", "src/text_asset_internal.h", "src/smpte_text_asset.cc", "src/interop_text_asset.cc", "src/text.cc", "src/text_string.cc", "src/text_image.cc", "src/load_variable_z.cc", "src/font.h"],
  [("what a document says", "src/text_asset.cc parse_texts, maybe_add_text"), ("writing", "src/text_asset.cc texts_as_xml, pull_fonts, format_xml; src/text_asset_internal.cc"), ("track files", "src/smpte_text_asset.cc write, set_key, read_mxf_resources"), ("fonts", "src/text_asset.cc fix_empty_font_ids; add_font, ensure_font"), ("periods and duration", "src/text_asset.cc texts_during, latest_text_out"), ("comparison", "equals of the assets and of src/text.cc, src/text_string.cc, src/text_image.cc")],
  [("texts", "strings and images of the asset", "src/text_asset.h"), ("fonts", "names and data of fonts", "src/text_asset.h")],
  ["texts, font_data, load_font_nodes and header of the asset", "XML of the document", "bytes of the file", "equals", "exceptions"])

p("C26", "The verifier says exactly what is wrong with a package",
  "What the verifier says of a SMPTE package, however many things are wrong with it at once, is exactly what is wrong in its lists, metadata, hashes, encryption, signatures, markers and durations, its picture and sound formats, and its subtitles' and captions' timing, layout and fonts. "
  "Each complaint names the reel it is about, has its seriousness and can be put in words, and nothing is said that is not so; what is confirmed as right is right. "
  "Parts that are missing, in other packages or encrypted do not keep the rest from being looked at, and only a package without a usable map cannot be examined at all.",
  ["inputs"], "all SMPTE packages: any number of reels, sizes, rates, lengths, channels, texts at any times and places, markers, metadata present or not, assets encrypted, missing or elsewhere, lists damaged or disagreeing, alone and together",
  "Tests (which need libraries that are not here) damage one stored package at a time; combinations, later reels, texts that only just touch, and packages that refer to others are not tried.",
  ["src/verify.cc", "src/verify.h", "src/verify_internal.h", "src/dcp.cc", "src/cpl.cc", "src/pkl.cc", "src/asset_map.cc"],
  [("compositions", "src/verify.cc verify_cpl, verify_extension_metadata"), ("reels", "src/verify.cc verify_reel"), ("picture and sound", "src/verify.cc verify_main_picture_asset, verify_picture_details, verify_main_sound_asset"), ("texts", "src/verify.cc verify_text_details, verify_text_lines_and_characters, verify_closed_caption_details"), ("lists", "src/verify.cc verify_pkl, verify_assetmap; src/dcp.cc read"), ("seriousness", "src/verify.cc VerificationNote::type"), ("words", "src/verify.cc note_to_string")],
  [("notes", "what has been said so far", "src/verify.h")],
  ["VerificationResult::notes: code, type, reel", "note_to_string"])

p("C27", "Combining packages keeps every composition and asset, and leaves the inputs be",
  "The package that several are combined into has each of their compositions and each asset that they use exactly once, with its identity and content, however the files were called, shared between packages, given twice or used across them. "
  "Each is at a path of its own with the hash and size its lists give, there is nothing else in the output, every reference can be followed, and issuer, creator, date, annotation and signature are those asked for. "
  "The inputs are never changed, and packages of different standards are refused with nothing made.",
  ["inputs"], "all sets of packages of either standard that between them have what their compositions use: any names, folders, copies of assets, references to other packages, fonts and images, orders and repetitions of inputs",
  "Tests (which need libraries that are not here) combine a few fixed pairs; no test gives a package twice, shares Interop subtitles or looks at whether the inputs change.",
  ["src/combine.cc", "src/dcp.cc", "src/interop_text_asset.cc", "src/asset_map.cc", "src/pkl.cc"],
  [("combining", "src/combine.cc combine"), ("names", "src/combine.cc make_unique"), ("files", "src/combine.cc create_hard_link_or_copy"), ("Interop fonts", "src/interop_text_asset.cc set_font_file, write, resolve_fonts"), ("lists", "src/dcp.cc add, resolve_refs, assets, write_xml")],
  [("assets", "what the inputs have", "src/combine.cc"), ("already written", "Interop texts that are in the output", "src/combine.cc")],
  ["files of the output and of the inputs", "asset map, packing list and compositions of the output", "exceptions", "what is read back from the output"])

p("C28", "What is said of a picture's codestream is what is wrong in its bytes",
  "A JPEG2000 codestream is said to be invalid exactly when, read from its start, something in it is not as it must be for a cinema, a marker is unknown, repeated or missing, or it ends inside a segment; the frame named is the one it is. "
  "Short of that, each departure in capabilities, tile sizes and parts, code blocks, guard bits, progression changes and part lengths is remarked on with the number found, and nothing else is. "
  "No bytes, however wrong or short, make this fail or read beyond them, and the codestreams that the library makes have nothing said of them.",
  ["inputs"], "all sequences of bytes, for 2K and 4K pictures, any frame and frame rate",
  "Tests (which need libraries that are not here) try two or three codestreams; none ends early or has two things wrong.",
  ["src/verify_j2k.cc", "src/verify_j2k.h", "src/j2k_transcode.cc"],
  [("codestreams", "src/verify_j2k.cc verify_j2k"), ("making them", "src/j2k_transcode.cc compress_j2k")],
  [("place", "how far the codestream has been read", "src/verify_j2k.cc"), ("counts", "markers of each kind so far", "src/verify_j2k.cc")],
  ["VerificationNotes: code, number, frame, size"])

p("C29", "A language tag is what it was put together from, and reads back as it is written",
  "A tag can be read exactly when it is a known language followed, in order, by at most one known script, at most one known region, and variants and extensions that are known and each there once, in letters of either case. "
  "After any changes, the tag as written, its description and the list of its parts are those of the parts it was given, and reading what it writes gives an equal tag. "
  "A change that is refused leaves the tag as it was.",
  ["inputs", "call_sequences"], "all tags made of anything in the lists of subtags and not, and all sequences of changes to a tag",
  "Tests try a few fixed tags; none tries combinations, other cases of letters, or what a refused change leaves behind.",
  ["src/language_tag.cc", "src/language_tag.h", "tags"],
  [("reading", "src/language_tag.cc LanguageTag::LanguageTag"), ("changing", "src/language_tag.cc set_language, set_script, set_region, set_variants, add_variant, set_extlangs, add_extlang"), ("saying", "src/language_tag.cc as_string, description, subtags"), ("lists", "src/language_tag.cc load_language_tag_list, find_in_list")],
  [("parts", "the parts of the tag", "src/language_tag.h")],
  ["as_string, description, subtags", "exceptions"])
