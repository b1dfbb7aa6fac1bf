R = "      class reader\n"; Wt = "      class writer\n"
B("B01-list-count16", "B01", [(Wt, '''            const uint32_t size = static_cast<uint32_t>(seq.size());          \\
            if (!operator()(size))''', '''            const uint32_t size = static_cast<uint16_t>(seq.size());          \\
            if (!operator()(size))''')],
  "a deque or list of 65536 or more elements", "the stored count is taken modulo 65536",
  '''std::list<char> l(65537,'x'), m; std::vector<char> b(70000); strtk::binary::writer w(&b[0],b.size()); CHECK(w(l)); strtk::binary::reader r(&b[0],b.size()); CHECK(r(m)); CHECK(m == l);''')
B("B01-vector-room", "B01", [(Wt, '''            if (strtk::details::is_pod<T>::result && !buffer_capacity_ok(raw_size + sizeof(size)))''','''            if (strtk::details::is_pod<T>::result && !buffer_capacity_ok(raw_size + 2 * sizeof(size)))''')],
  "a vector that fits its buffer with less than four bytes to spare", "a vector that fits is refused",
  '''std::vector<int> v(3,5); char b[16]; strtk::binary::writer w(b,16); CHECK(w(v));''')
B("B01-vector-stale", "B01", [(R, '''            vec.resize(size);
''','''            if (vec.size() < size) vec.resize(size);
''')],
  "reading into a vector that holds more elements than the stored one", "stale elements stay behind the elements read",
  '''std::vector<int> v(2,5), x(4,9); char b[64]; strtk::binary::writer w(b,64); CHECK(w(v)); strtk::binary::reader r(b,64); CHECK(r(x)); CHECK(x == v);''')
B("B01-string-nul", "B01", [(Wt, '''            return operator()<const char>(to_ptr(input),static_cast<uint32_t>(input.size()));''','''            return operator()<const char>(input.c_str(),static_cast<uint32_t>(input.find(char(0),input.size() > 255 ? 0 : input.size()) != std::string::npos ? input.find(char(0)) : input.size()));''')],
  "a string of more than 255 characters that holds a zero byte", "the string is cut at the zero byte",
  '''S s(300,'x'), x; s[280] = 0; std::vector<char> b(400); strtk::binary::writer w(&b[0],b.size()); CHECK(w(s)); strtk::binary::reader r(&b[0],b.size()); CHECK(r(x)); CHECK(x == s);''')
B("B01-multiset-dup", "B01", [(R, '''               if (!operator()(t))
                  return false;
               multiset.insert(t);''','''               if (!operator()(t))
                  return false;
               if (!multiset.empty() && !(*multiset.rbegin() < t) && multiset.count(t) > 1) continue;
               multiset.insert(t);''')],
  "a multiset holding the same value three times", "the third and further equal elements are lost",
  '''std::multiset<int> a, c; a.insert(4); a.insert(4); a.insert(4); char b[64]; strtk::binary::writer w(b,64); CHECK(w(a)); strtk::binary::reader r(b,64); CHECK(r(c)); CHECK(c == a);''')
B("B01-amount-array", "B01", [('''         template <typename T, std::size_t N>
         inline bool operator()(T (&output)[N])
         {
            const std::size_t raw_size = N * sizeof(T);

            if (buffer_capacity_ok(raw_size))
            {
               std::copy(buffer_,
                         buffer_ + raw_size,
                         reinterpret_cast<char*>(output));

               buffer_ += raw_size;
               amount_read_sofar_ += raw_size;
''','''         template <typename T, std::size_t N>
         inline bool operator()(T (&output)[N])
         {
            const std::size_t raw_size = N * sizeof(T);

            if (buffer_capacity_ok(raw_size))
            {
               std::copy(buffer_,
                         buffer_ + raw_size,
                         reinterpret_cast<char*>(output));

               buffer_ += raw_size;
               amount_read_sofar_ += N;
''')],
  "an array of elements of more than one byte, followed by reads to the end of the buffer or position()", "the amount read counts elements instead of bytes",
  '''int a[2] = {1,2}; char b[8] = {0}; strtk::binary::reader r(b,8); CHECK(r(a)); CHECK(r.position() == 8); char c; CHECK(!r(c));''')
B("B02-mark-reset", "B02", [(R, '''         inline void reset(const bool clear_buffer = false)
         {
            amount_read_sofar_ = 0;''','''         inline void reset(const bool clear_buffer = false)
         {
            char* unused = 0;
            marker_.reset(amount_read_sofar_,unused);
            amount_read_sofar_ = 0;''')],
  "mark, reset, reset_to_mark in this order", "reset() throws the newest mark away",
  '''char b[8] = {0}; strtk::binary::reader r(b,8); char c; CHECK(r(c)); r.mark(); CHECK(r(c)); r.reset(); CHECK(r.reset_to_mark()); CHECK(r.position() == 1);''')
B("B02-seek-back", "B02", [(R, '''            if (n_bytes < 0)
               return rewind(-n_bytes);''','''            if (n_bytes < 0)
               return rewind(static_cast<unsigned char>(-n_bytes));''')],
  "seeking back by 256 bytes or more", "the reader moves back by the distance modulo 256",
  '''std::vector<char> b(600); strtk::binary::reader r(&b[0],600); CHECK(r.seek(500)); CHECK(r.seek(-300)); CHECK(r.position() == 200);''')
B("B02-seek-end", "B02", [(R, '''               if ((amount_read_sofar_ + n_bytes) <= buffer_length_)
               {
                  amount_read_sofar_ += n_bytes;''','''               if (n_bytes <= static_cast<int>(buffer_length_))
               {
                  amount_read_sofar_ += n_bytes;''')],
  "two forward seeks that together leave the buffer", "the cursor leaves the buffer",
  '''char b[8] = {0}; strtk::binary::reader r(b,8); CHECK(r.seek(5)); CHECK(!r.seek(5)); CHECK(r.position() == 5);''')
B("B02-count-overflow", "B02", [('''         inline bool buffer_capacity_ok(const std::size_t& required_read_qty)
         {
            return ((required_read_qty + amount_read_sofar_) <= buffer_length_);''','''         inline bool buffer_capacity_ok(const std::size_t& required_read_qty)
         {
            return (static_cast<uint32_t>(required_read_qty + amount_read_sofar_) <= buffer_length_);''')],
  "a stored count whose size in bytes passes 2^32", "a huge count is taken for a small one and the reader runs past its buffer",
  '''char b[12] = {0}; unsigned n = 0x40000000u; std::memcpy(b,&n,4); strtk::binary::reader r(b,12); int* p = 0; unsigned len = 0; bool ok = true; int dummy = 0; p = &dummy; len = 0x40000000u; (void)n; strtk::binary::reader q(b,0); ok = q(p,len,false); CHECK(!ok);''', prelude="#include <cstring>")
B("B02-writer-mark-amount", "B02", [('''         inline bool reset_to_mark()
         {
            return marker_.reset(amount_written_sofar_,buffer_);''','''         inline bool reset_to_mark()
         {
            std::size_t amount = amount_written_sofar_;
            const bool result = marker_.reset(amount,buffer_);
            if (amount < amount_written_sofar_) amount_written_sofar_ = amount;
            return result;''')],
  "mark, reset to the start, reset_to_mark", "after going back and forth position() is smaller than the place written to",
  '''char b[8]; strtk::binary::writer w(b,8); char c = 1; CHECK(w(c)); CHECK(w(c)); w.mark(); w.reset(); CHECK(w.reset_to_mark()); CHECK(w.position() == 2);''')
B("B02-pair-string", "B02", [(R, '''            if (!buffer_capacity_ok(length))
               return false;

            output.resize(length);''','''            if (buffer_length_ < length)
               return false;

            output.resize(length);''')],
  "a string whose stored length is between what is left and the whole buffer", "the reader reads past its buffer",
  '''char b[8] = {5,0,0,0,'a','b','c','d'}; strtk::binary::reader r(b,8); S s; CHECK(!r(s));''')
B("B03-convert64", "B03", [('''                   ((v >>  8) & 0x00000000FF000000LL) | ((v <<  8) & 0x000000FF00000000LL) ;''','''                   ((v >>  8) & 0x00000000FF000000LL) | ((v <<  8) & 0x000000FE00000000LL) ;''')],
  "a 64-bit value with bit 24 set", "a bit is lost when the byte order is changed",
  '''unsigned long long v = 1ULL << 25; v |= 1ULL << 24; CHECK(strtk::binary::details::convert(strtk::binary::details::convert(v)) == v);''')
B("B03-short-255", "B03", [('''               if (s->size() > std::numeric_limits<size_type>::max())
                  return false;''','''               if (s->size() >= std::numeric_limits<size_type>::max())
                  return false;''')],
  "a short string of exactly the largest length", "a string of the largest length is refused",
  '''S s(255,'x'); char b[300]; strtk::binary::writer w(b,300); strtk::binary::pascal_string p(s); CHECK(w(p));''')
B("B03-pad-full", "B03", [('''                  if (right_padding == pmode)
                     s.resize(size,padding);''','''                  if (right_padding == pmode && size > s.size() + 1)
                     s.resize(size,padding);''')],
  "a right padded field one character wider than its text", "the padding goes to the left",
  '''char b[4] = {0}; strtk::binary::writer w(b,4); CHECK(w(123,4,strtk::binary::writer::right_padding)); CHECK(S(b,4) == "123 ");''')
B("B03-fixed-fail", "B03", [('''               bool result = strtk::string_to_type_converter<char*,T>(buffer_,buffer_ + size,output);
               buffer_ += size;''','''               bool result = strtk::string_to_type_converter<char*,T>(buffer_,buffer_ + size,output);
               if (!result) return false;
               buffer_ += size;''')],
  "a fixed-width field that does not convert, followed by another one", "the cursor stays before the refused field",
  '''char b[8] = {'x','x','1','2'}; strtk::binary::reader r(b,4); int i = 0; CHECK(!r(i,2)); CHECK(r(i,2) && i == 12);''')
B("B03-stream-amount", "B03", [('''            if (length > buffer_length_) return false;
            stream.read(original_buffer_''','''            if (length >= buffer_length_ && length > 0) return false;
            stream.read(original_buffer_''')],
  "reading exactly the size of the buffer from a stream", "a read that fits is refused",
  '''{ std::ofstream o("x.bin"); o << "abcd"; } std::ifstream i("x.bin"); char b[4]; strtk::binary::reader r(b,4); CHECK(r(i,4)); CHECK(S(b,4) == "abcd");''', prelude="#include <fstream>")
