NA = {}
claim("C01", "Covers every method of the byte reader and its embedded buffer.")
claim("C02", "Covers every method of the byte writer and its embedded buffer; frames prove that no other byte changes.")
claim("C05", "Class invariant plus sequence view; each operation's effect on the whole sequence is a postcondition.")
claim("C06", "Class invariant plus sequence view, shared with the ring buffer it embeds.")
claim("C07", "Class invariant (a finite chain with a ghost position map) plus sequence view; every operation's effect on the whole sequence is a postcondition.")
claim("C08", "Class invariant over the memory layout (ghost list of live blocks, disjoint and inside memory); each operation's effect on live blocks and their bytes is a postcondition.")
claim("C09", "Class invariant over the memory layout and postconditions on bytes, shared with the ring block buffer.")
claim("C11", "The scans and the splitter are tied to a recursive definition of the first start code; the splitter's callback is checked at each call against a ghost cursor.")
claim("C12", "Size and every written byte are tied to a recursive definition of the AVCC form.")
claim("C13", "Size and every written byte of the three converters are tied to recursive definitions of the converted form.")
claim("C19", "Both detectors are tied to a recursive definition over the start codes.")
claim("C20", "Both extractors (with the splitter's body and their closure) are tied to a recursive definition of the last piece of each type.")
claim("C15", "Reading, writing and both Annex-B converters are tied to recursive definitions of the units in the record; a written record is proved to be accepted with the same units.")
claim("C16", "Reading, writing and the Annex-B converter are tied to recursive definitions of the arrays and of the m-th unit of each type; a written record is proved to be accepted with the same units.")
claim("C14", "Destination size, every byte of both conversions, the cached forms and the parameter sets in front are tied to the definitions of C12/C13 and to the lists of the codec data; the buffer hook is assumed to return unused memory.")
claim("C21", "Every accessor, the writer, the reader, both config directions and the rate tables are specified as exact bit fields; a lemma composes them into the round trip.")
claim("C22", "The exact rational result is the postcondition of the conversion; the packet methods inherit it.")
claim("C25", "Every method's effect on the whole list is a postcondition; a foreign Track implementation is assumed to give the same stream whenever asked.")
claim("C26", "The pool's invariant (every field blank) is proved at every Put and used at every Get.")
claim("C27", "Each operation is proved to be one atomic step and to answer from that step alone (sync/atomic is trusted to be sequentially consistent and may meet any value); lemmas over all sequences of steps give the count and the single last release.")
claim("C10", "Ghost ownership of every array and object by one stream; each operation's effect on its stream and the unchanged state and bytes of all others are postconditions over the ring buffer's contracts.")
claim("C03", "Both bit loops are tied to a recursive definition of the bits of a byte string and of a word; a lemma composes write and read.")
claim("C04", "Every method is tied to recursive definitions of the bits, of the leading zeros and of the code's value (bytes.Reader is trusted).")
claim("C17", "Every read of the parser is tied to its place in the syntax (a definition of each field's position over the payload without emulation prevention); the geometry, and when the parser succeeds, are postconditions. bytes.Replace and bytes.NewReader are trusted.")
claim("C18", "Every read of the parser is tied to its place in the syntax (a definition of each field's position over the payload without emulation prevention); the geometry, and when the parser succeeds, are postconditions. bytes.Replace and bytes.NewReader are trusted.")
claim("C28", "Every accessor, constructor and stream creator is tied to the definitions of the unit lists of C15/C16, of the last units of C20 and of the coded size of C17/C18; the marshalled form is proved to be accepted with the same units.")
claim("C23", "The handler is a recorder whose calls require the protocol state (nothing told, announcing, complete, none found); a demuxer invariant over the ghost history of arrivals and deliveries is kept by every method, and completing by itself is an equivalence over the recursive sum of gap durations. Handler, pipeline and hook are assumed not to reenter.")
claim("C24", "Each delivery must be of an arrived packet, not delivered before, with a successor, in its place of the stream's order and with the gap to its successor; the demuxer invariant says which packets are delivered and which are held. Sorting is trusted to permute into a (stable) order, the comparison is verified to be a strict weak order.")
