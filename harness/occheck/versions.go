//go:build go1.22

package main

// Dictionary versions of the simulated remote with their archives (made with bzip2 -1).
var versions = []struct {
	text    string
	archive string // base64
}{
	{
		text: `<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<dictionary version="0.92" revision="1">
<grammemes>
<grammeme parent=""><name>POST</name><alias>post</alias><description>d</description></grammeme>
<grammeme parent="POST"><name>NOUN</name><alias>noun</alias><description>d</description></grammeme>
<grammeme parent=""><name>sing</name><alias>sing</alias><description>d</description></grammeme>
</grammemes>
<lemmata>
<lemma id="1" rev="1"><l t="ад"><g v="NOUN"/></l><f t="ад"><g v="sing"/></f><f t="ада"></f></lemma>
</lemmata>
</dictionary>
`,
		archive: "QlpoMTFBWSZTWY3vv8QAADZfigAQUAPwZ4ABzgAvp99gRABAADABCYYSVPSnqbU2JNBk0aaAGQGKaNKAGg9R6TIyAARRJqn6T1E2p6ENAANqeomkOtvTLnyMDJ069dm4ptZD8/o2Ez3pArfJ5ekCkCOXFtXb1ia1ISC3WTaIKQCASCLic18SZPVjbBW30iLJNC/MVRzI3M4MQ5kYNwxENmA3hmwPgg++ERk3e3eOgFdGh0HEnMaG5il24RpZwhA5B03PieFTIcC5ltJLhDLEXHqL72YbAYjtxvsmCOa0DvGRkCTWAoBr2IWbMlazmHDB1opny48W1R9ALuBiOwoQwMDzsbYUShvimWodZMUimMoBRjE0fksmWa/i7kinChIRvff4gA==",
	},
	{
		text: `<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<dictionary version="0.92" revision="2">
<grammemes>
<grammeme parent=""><name>POST</name><alias>post</alias><description>d</description></grammeme>
<grammeme parent="POST"><name>NOUN</name><alias>noun</alias><description>d</description></grammeme>
<grammeme parent=""><name>sing</name><alias>sing</alias><description>d</description></grammeme>
<grammeme parent=""><name>plur</name><alias>plur</alias><description>d</description></grammeme>
</grammemes>
<lemmata>
<lemma id="1" rev="1"><l t="ад"><g v="NOUN"/></l><f t="ад"><g v="sing"/></f><f t="ады"><g v="plur"/></f></lemma>
<lemma id="2" rev="2"><l t="яд"><g v="NOUN"/></l><f t="яд"><g v="sing"/></f></lemma>
</lemmata>
</dictionary>
`,
		archive: "QlpoMTFBWSZTWXKsJFUAAEzfygAQUAPwZ4ABzgAvp99gAAjEAGAAMAFEwYSSmiekNoQaMTQNAGnqCRTUmIAA0NGjIAAKoiQ9T1NJpmoZAAMmgQQnWFoSBheM3BHp0KaivYn4tuHJTZHxid2FK8PQqs0JkXCFvkRcxa6uvt5xC+9JmBrH655ZgGYDQxphQqafMpOShqffCK5OuyqZZ7xFiwAyonCYOMOhImJwvEmONlykZrTWoi0uGuxoczsLnX0Dghn5FXEWU2irElW5eE8tBhKIZI44nc7czYMIvGzVFIXhJQmbjOu6CkxoQsNVl9KiYnhB0xgjeKiiFHOUVQ57YhYsUZs1N0MsDnWEbscsjfaM41x4oYmeLjUqmJEiyzc067dWJSGlXGAFA+lUQM6TcYEsVECRRiMZOP4u5IpwoSDlWEiq",
	},
	{
		text: `<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<dictionary version="0.92" revision="3">
<grammemes>
<grammeme parent=""><name>POST</name><alias>post</alias><description>d</description></grammeme>
<grammeme parent="POST"><name>VERB</name><alias>verb</alias><description>d</description></grammeme>
</grammemes>
<lemmata>
<lemma id="1" rev="1"><l t="жить"><g v="VERB"/></l><f t="жить"></f></lemma>
</lemmata>
</dictionary>
`,
		archive: "QlpoMTFBWSZTWVyHv0sAACvfygAQUAP4Z5IA3QA/p99gEAQBQGAAMAEKwhKQT1QaPUGj0Q2oMQAGg1T9JTTRiZMmDUwI0yYmJgSghNT9Smn6hqMgMjAE0yaQEHVVjUlx4eW5YZtGqLEKPYuSXZRITTrUIkWhUyl1mNoWtgkF+FFAEgsEghm/n+QKRflQnQz1S8oGVJiN9KkxJQcKPHRsLi0fpsLS4e/rQxmcnIwDwJPmOcgqTfKEiBXghF51JKCeQcoPdPaZYJEWvaFGFWAoQvilwlQvrGJlF9UHD0BgYRjooOJZEoUGJSbI5+MgWwyGEg+RLsRMqDjiooKFikUy4DFw/TwCDPfdjUbTjJ9w7gx/F5efxdyRThQkFyHv0sA=",
	},
}
