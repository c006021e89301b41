LIB, UT, ADM, MED = ['price_aggregator/src/' + f for f in ('lib.rs', 'utils.rs', 'admin.rs', 'median.rs')]
PRE = 'mod a;\nuse a::*;\n'
C = ('a.rs',)
SEEDS = [
 dict(id='A01-batch-first-only', prop='A01', crates=C, edits=[(LIB, '''            self.require_valid_submission_timestamp(submission_timestamp);

            self.submit_unchecked(from, to, price);
        }''', '''            if !checked {
                self.require_valid_submission_timestamp(submission_timestamp);
                checked = true;
            }

            self.submit_unchecked(from, to, price);
        }'''), (LIB, '''        for (from, to, submission_timestamp, price) in submissions''', '''        let mut checked = false;
        for (from, to, submission_timestamp, price) in submissions''')],
  needs='a batch whose second element carries a stale timestamp', breaks='only the first element of a batch has its timestamp validated',
  main=PRE + r'''fn main() {
    let mut g = Agg::new(3, 3);
    assert!(g.fails(O[0], |sc| {
        let mut v = MultiValueEncoded::new();
        v.push(MultiValue4::from((buf("B"), buf("USD"), 10_000u64, BigUint::from(5u64))));
        v.push(MultiValue4::from((buf("A"), buf("USD"), 9_000u64, BigUint::from(5u64))));
        sc.submit_batch(v)
    }), "stale element accepted");
}
'''),
 dict(id='A02-sliding-timeout', prop='A02', crates=C, edits=[(UT, '''            first_sub_time_mapper.get()
        };''', '''            last_sub_time_mapper.get()
        };''')],
  needs='submissions spread out so that each arrives within 30 minutes of the previous one but more than 30 minutes after the first',
  breaks='the round timeout restarts with every submission, so an hour-old price takes part in a round',
  main=PRE + r'''fn main() {
    let mut g = Agg::new(4, 3);
    g.submit(0, 10_000, 100);
    g.submit(1, 11_500, 200);
    g.submit(2, 13_000, 300);
    assert_eq!(g.published(), None, "round closed with an expired submission");
}
'''),
 dict(id='A02-stale-not-dropped', prop='A02', crates=C, edits=[(UT, '''            submissions.clear();
            first_sub_time_mapper.set(current_timestamp);
            last_sub_time_mapper.set(current_timestamp);
''', '''            first_sub_time_mapper.set(current_timestamp);
            last_sub_time_mapper.set(current_timestamp);
''')],
  needs='a round abandoned for more than 30 minutes, then continued by other oracles', breaks='submissions of an abandoned round count in the next one',
  main=PRE + r'''fn main() {
    let mut g = Agg::new(4, 3);
    g.submit(0, 10_000, 100);
    g.submit(1, 10_001, 200);
    g.submit(2, 20_000, 300);
    assert_eq!(g.published(), None, "expired submissions counted");
}
'''),
 dict(id='A03-quorum-sized-list', prop='A03', crates=C, edits=[(UT, '''                submissions_vec.push(submission_value);
''', '''                if submissions_vec.len() < self.submission_count().get() {
                    submissions_vec.push(submission_value);
                }
''')],
  needs='the owner lowers the quorum while more submissions than the new quorum are already collected',
  breaks='the median is taken over the first submissions only, ignoring the others of the same round',
  main=PRE + r'''fn main() {
    let mut g = Agg::new(6, 5);
    g.submit(0, 10_000, 100);
    g.submit(1, 10_000, 200);
    g.submit(2, 10_000, 300);
    g.submit(3, 10_000, 400);
    g.owner(|sc| sc.set_submission_count(3));
    g.submit(4, 10_000, 500);
    assert_eq!(g.published(), Some((300, 0)));
}
'''),
 dict(id='A03-even-median', prop='A03', crates=C, edits=[(MED, 'Result::Ok(Some((median1.clone() + median2.clone()) / 2u64))', 'Result::Ok(Some(median1.clone() + median2.clone() / 2u64 - median1.clone() / 2u64))')],
  needs='an even number of submissions whose two middle prices are of different parity', breaks='the mean of the two middle prices is off by one',
  main=PRE + r'''fn main() {
    let mut g = Agg::new(4, 2);
    g.submit(0, 10_000, 5);
    g.submit(1, 10_000, 8);
    assert_eq!(g.published(), Some((6, 0)));
}
'''),
 dict(id='A04-quorum-before-removal', prop='A04', crates=C, edits=[(ADM, '''        let mut oracle_mapper = self.oracle_status();
        for oracle in oracles {
            let _ = oracle_mapper.remove(&oracle);
        }

        self.set_submission_count(submission_count);
''', '''        self.set_submission_count(submission_count);

        let mut oracle_mapper = self.oracle_status();
        for oracle in oracles {
            let _ = oracle_mapper.remove(&oracle);
        }
''')],
  needs='removing oracles with a quorum above the number that remain', breaks='the quorum can exceed the number of listed oracles: no round ever closes again',
  main=PRE + r'''fn main() {
    let mut g = Agg::new(4, 2);
    assert!(g.fails(OWNER, |sc| sc.remove_oracles(4, addrs(2..4))), "unreachable quorum accepted");
}
'''),
]
