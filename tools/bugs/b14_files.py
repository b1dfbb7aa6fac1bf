F = "#include <fstream>\n"
B("F01-identical-block", "F01", [('''            if (0 != std::memcmp(buffer1,buffer2,block_size))
               return false;''','''            if (0 != std::strncmp(buffer1,buffer2,block_size))
               return false;''')],
  "two files of at least one block that differ only behind a zero byte", "different files are reported identical",
  '''S d(16384,'x'), e; d[3] = 0; e = d; e[9] = 'y'; strtk::fileio::write_file("a",d); strtk::fileio::write_file("b",e); CHECK(!strtk::fileio::files_identical("a","b"));''')
B("F01-concat-second", "F01", [('''            input_stream.close();
            ++round;''','''            if (0 == round && input_stream.fail()) return false;
            if (round && (0 == file_size(file_name1))) break;
            input_stream.close();
            ++round;
            if (round && (file_size(file_name2) == block_size)) break;''')],
  "a second file of exactly one block", "the second file is not appended",
  '''strtk::fileio::write_file("a",S("abc")); strtk::fileio::write_file("b",S(16384,'x')); CHECK(strtk::fileio::concatenate("a","b","c")); CHECK(strtk::fileio::file_size("c") == 16387);''')
B("F01-size-int", "F01", [('''         unsigned int round = 0;''', '''            while (remaining_bytes >= block_size)''','''            while ((round ? (remaining_bytes &= 0xFFFF) : remaining_bytes) >= block_size)''')],
  "a second file of 65536 bytes or more", "only size modulo 65536 bytes of the second file are appended",
  '''strtk::fileio::write_file("a",S("abc")); strtk::fileio::write_file("b",S(65540,'x')); CHECK(strtk::fileio::concatenate("a","b","c")); CHECK(strtk::fileio::file_size("c") == 65543);''')
B("F01-podset-fail", "F01", [('''            if (details::read_pod_proxy(stream,t))
               sequence.push_back(t);
            else
               return false;
         }

         return true;''','''            if (details::read_pod_proxy(stream,t))
               sequence.push_back(t);
            else
               return (i > 0) && stream.eof() && (0 == stream.gcount());
         }

         return true;''')],
  "a sequence whose file ends exactly after an element but before the last one asked for", "a short file is reported as read",
  '''int x[2] = {1,2}; strtk::fileio::write_file("a",S((char*)x,8)); std::ifstream s("a",std::ios::binary); std::vector<int> v; CHECK(!strtk::fileio::read_pod(s,3,v));''', prelude=F)
B("F02-set-count", "F02", [('''      while (std::getline(stream,buffer))
      {
         ++line_count;
         set.insert(string_to_type_converter<T>(buffer));
      }''','''      while (std::getline(stream,buffer))
      {
         if (set.insert(string_to_type_converter<T>(buffer)).second || !buffer.empty())
            ++line_count;
      }''')],
  "a text with more than one empty line, loaded into a set", "repeated empty lines are not counted",
  '''std::istringstream i("a\\n\\n\\n"); std::set<S> s; CHECK(strtk::load_from_text_file(i,s) == 3);''')
B("F02-deque-crlf", "F02", [('''      while (std::getline(stream,buffer))
      {
         ++line_count;
         sequence.push_back(string_to_type_converter<T>(buffer));
      }''','''      while (std::getline(stream,buffer))
      {
         ++line_count;
         if (buffer.size() > 1 && '\\r' == buffer[buffer.size() - 1] && stream.eof()) buffer.resize(buffer.size() - 1);
         sequence.push_back(string_to_type_converter<T>(buffer));
      }''')],
  "a last line without a newline that ends in a carriage return", "the last byte of the text is lost",
  '''std::istringstream i("a\\nb\\r"); std::vector<S> v; CHECK(strtk::load_from_text_file(i,v) == 2); CHECK(v[1] == "b\\r");''')
