prop = 'C09'
edits = [('src/utils/rcfile.cxx', """              set_all_channels_on();
              did_reset_channels_on_channels_on_or_off = 1;
            }
          }
          process_channels(value, off);""", """              set_all_channels_on();
            }
          }
          process_channels(value, off);
          did_reset_channels_on_channels_on_or_off = 0;""")]
needs = 'An override file with two channels_off lines, while the rcfile turns everything off by default.'
breaks = 'The second channels_off line of an override file starts from a fresh state again and so undoes the first.'
run = '''cd "$T" && printf 'silent = on\\nchannels_default = off\\n' > .libcwdrc && printf 'channels_off = notice\\nchannels_off = debug\\n' > over && LIBCWD_RCFILE_OVERRIDE_NAME=over timeout 60 ./demo\n'''
demo = r'''
#include <libcwd/debug.h>
int main()
{
  Debug(read_rcfile());
  using namespace libcwd::channels;
  return !(!dc::notice.is_on() && !dc::debug.is_on() && dc::system.is_on());
}
'''
