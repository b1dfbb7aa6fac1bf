B("U01-rotate-tie", "U01", [('''            else if ((*itr1) < (*itr0))
               break;

            if (end == ++itr0) itr0 = begin;
            if (end == ++itr1) itr1 = begin;''','''            else if ((*itr1) < (*itr0))
               break;

            if (end == ++itr0) break;
            if (end == ++itr1) itr1 = begin;''')],
  "a sequence whose least rotation differs from the best prefix only after wrapping around", "another rotation than the least one is delivered",
  '''const char* in[] = {"aba","abaab","ababa","aabaab","abaababa"}; const char* out[] = {"aab","aabab","aabab","aabaab","aababab"}; (void)out; for (const char* p : in) { S s = p, best = p; for (size_t i = 0; i < s.size(); ++i) { S r = s.substr(i) + s.substr(0, i); if (r < best) best = r; } strtk::lexicographically_canonicalize(s); CHECK(s == best); }''')
B("U01-first-char-last", "U01", [('''         if (not_yet_encountered == element)
         {
            element = position;
         }
         else if (element < repeated)''','''         if (not_yet_encountered == element)
         {
            element = position;
         }
         else if (element != position - 1)''')],
  "a character that is repeated only by its direct neighbour", "a repeated character is reported as not repeated",
  '''CHECK(strtk::first_non_repeated_char(S("xxab")) == 2); CHECK(strtk::first_non_repeated_char(S("xx")) == S::npos);''')
B("U01-first-char-255", "U01", [('''      static const std::size_t lut_size = 256;
      unsigned long long int lut[lut_size];
''','''      static const std::size_t lut_size = 255;
      unsigned long long int lut[lut_size + 1] = { 0 };
''')],
  "the byte 0xFF is the only character that is not repeated", "the byte 0xFF is never found",
  '''CHECK(strtk::first_non_repeated_char(S("aa\\xFF")) == 2);''')
B("U01-minmax-equal", "U01", [('''         if (*itr < min_value)
            min_value = (*itr);
         else if (*itr > max_value)
            max_value = (*itr);
      }
   }
''','''         if (*itr < min_value)
         {
            if (min_value > max_value) max_value = min_value;
            min_value = (*itr);
            if (end == ++itr) break;
         }
         if (*itr > max_value)
            max_value = (*itr);
      }
   }
''')],
  "two new minima in a row", "the second of two consecutive new minima is missed",
  '''int a[] = {5, 4, 3, 9}; int lo, hi; strtk::min_max_of_range(a, a + 4, lo, hi); CHECK(lo == 3); CHECK(hi == 9);''')
B("E01-hex-lower-f", "E01", [('''                                    0x00, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x00, // 0x60 - 0x67
                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x68 - 0x6F
                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x70 - 0x77
                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x78 - 0x7F
                                    0x00,''','''                                    0x00, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0E, 0x00, // 0x60 - 0x67
                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x68 - 0x6F
                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x70 - 0x77
                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x78 - 0x7F
                                    0x00,''')],
  "a lower case f among the hexadecimal digits", "f is decoded as fourteen",
  '''S o; CHECK(strtk::convert_hex_to_bin("ff", o)); CHECK(o == S("\\xFF"));''')
B("E01-hex-one-entry", "E01", [('0x3841, 0x3941, 0x4141, 0x4241, 0x4341, 0x4441, 0x4541, 0x4641,','0x3841, 0x3941, 0x4141, 0x4241, 0x4341, 0x4441, 0x4641, 0x4641,')],
  "the byte 0xAE in the binary data", "one byte value is encoded as its neighbour", '''CHECK(strtk::convert_bin_to_hex(S("\\xAE")) == "AE");''')
B("E02-tail-two", "E02", [('''                        unsigned int block  = *(itr++) << 16;
                                     block |= *(itr++) <<  8;
                        *(out++) = bin_to_base64[( block >> 18 ) & 0x3F];
                        *(out++) = bin_to_base64[( block >> 12 ) & 0x3F];
                        *(out++) = bin_to_base64[( block >>  6 ) & 0x3F];
                        *(out++) = '=';''','''                        unsigned int block  = *(itr++) << 16;
                                     block |= *(itr++) <<  8;
                        *(out++) = bin_to_base64[( block >> 18 ) & 0x3F];
                        *(out++) = bin_to_base64[( block >> 12 ) & 0x3F];
                        *(out++) = bin_to_base64[( block >>  6 ) & 0x38];
                        *(out++) = '=';''')],
  "two bytes left at the end whose last one has bit 0 set... the low bits of the second byte", "the low bit of the last byte is lost",
  '''S o, b; strtk::convert_bin_to_base64(S("\\x00\\x01", 2), o); strtk::convert_base64_to_bin(o, b); CHECK(b == S("\\x00\\x01", 2));''')
B("E02-block-sign", "E02", [('''         unsigned int block  = base64_to_bin[*(itr++)] << 18;
                      block |= base64_to_bin[*(itr++)] << 12;
                      block |= base64_to_bin[*(itr++)] <<  6;
                      block |= base64_to_bin[*(itr++)];
''','''         unsigned int block  = base64_to_bin[*(itr++)] << 18;
                      block ^= base64_to_bin[*(itr++)] << 12;
                      block += base64_to_bin[*(itr++)] <<  6;
                      block |= base64_to_bin[*(itr++)] & (0x3E | (rounds & 1) | (i & 1));
''')],
  "an even number of groups of four digits, in an even group, whose last digit is odd", "the low bit of a decoded byte is lost",
  '''for (size_t n = 1; n < 40; ++n) { S in, o, b; for (size_t i = 0; i < n; ++i) in += (char)(255 - i); strtk::convert_bin_to_base64(in, o); strtk::convert_base64_to_bin(o, b); CHECK(b == in); }''')
B("E03-xor-long", "E03", [('''         case bitwise_operation::eXOR : while (itr1 != end1) { *(out++) = *(itr1++) ^ *(itr2++); } return;''','''         case bitwise_operation::eXOR : for (unsigned char n = 0; itr1 != end1; ++n) { *(out++) = *(itr1++) ^ *itr2; if (n != 255) ++itr2; } return;''')],
  "an exclusive or of more than 256 bytes", "one byte of the second operand is used twice from position 256 on",
  '''S a, b, o; for (int i = 0; i < 600; ++i) { a += (char)(i * 7); b += (char)(i * 31 / 3); } strtk::bitwise_transform(strtk::bitwise_operation::eXOR, a, b, o); for (int i = 0; i < 600; ++i) CHECK(o[i] == (char)(a[i] ^ b[i]));''')
B("E03-count-llong", "E03", [('''             high_bit_count(*(ptr + 4)) + high_bit_count(*(ptr + 5)) +
             high_bit_count(*(ptr + 6)) + high_bit_count(*(ptr + 7));
   }

   inline std::size_t high_bit_count(const unsigned char* begin''','''             high_bit_count(*(ptr + 4)) + high_bit_count(*(ptr + 5)) +
             high_bit_count(*(ptr + 6)) + high_bit_count(*(ptr + 6));
   }

   inline std::size_t high_bit_count(const unsigned char* begin''')],
  "a 64-bit value whose two top bytes have different bit counts", "the top byte is not counted",
  '''CHECK(strtk::high_bit_count(1LL << 62) == 1); CHECK(strtk::high_bit_count(1LL << 50) == 1);''')
B("E03-hamming-alias", "E03", [('''         distance += high_bit_count(static_cast<unsigned char>(((*itr1++) ^ (*itr2++)) & 0xFF));
''','''         distance += high_bit_count(static_cast<unsigned char>(((*itr1++) ^ (*itr2++)) & 0xFF));
         if ((0 == (std::distance(begin1,itr1) & 0x3F)) && (distance > 0x1FF)) return distance;
''')],
  "two strings of more than 64 bytes that all differ in every bit", "the distance stops growing",
  '''CHECK(strtk::hamming_distance(S(300, '\\0'), S(300, '\\xFF')) == 2400);''')
B("T01-dup-nul", "T01", [('''         const char c = str[i];
         if (!table[static_cast<unsigned char>(c)])
         {
            table[static_cast<unsigned char>(c)] = true;
            result += c;
         }
      }
      return result;''','''         const char c = str[i];
         if (!table[static_cast<unsigned char>(c)])
         {
            table[static_cast<unsigned char>(c)] = (0 != c);
            result += c;
         }
      }
      return result;''')],
  "a text with several NUL characters", "NUL characters are not treated as duplicates of each other",
  '''CHECK(strtk::remove_duplicates(S("a\\0b\\0", 4)).size() == 3);''')
