LIB, UT, ADM, MED, VW = ['price_aggregator/src/' + f for f in ('lib.rs', 'utils.rs', 'admin.rs', 'median.rs', 'views.rs')]
A = ['A01', 'A02', 'A03', 'A04', 'A05']
REFAC = [
 dict(n='helper', props=A, edits=[(UT, '''        let accepted = !has_caller_already_submitted
            && (is_first_submission || current_timestamp >= first_submission_timestamp);''', '''        let accepted = self.is_accepted(
            has_caller_already_submitted,
            is_first_submission,
            current_timestamp,
            first_submission_timestamp,
        );'''), (UT, '    fn require_is_oracle(&self) {', '''    fn is_accepted(&self, had: bool, first: bool, now: u64, start: u64) -> bool {
        if had {
            return false;
        }
        first || start <= now
    }

    fn require_is_oracle(&self) {''')]),
 dict(n='destructure', props=A, edits=[(LIB, '''        for (from, to, submission_timestamp, price) in submissions
            .into_iter()
            .map(|submission| submission.into_tuple())
        {''', '''        for submission in submissions {
            let (from, to, submission_timestamp, price) = submission.into_tuple();''')]),
 dict(n='median-shape', props=A, edits=[(MED, 'let middle_index = len / 2;', 'let middle_index = len >> 1;'), (MED, 'if len % 2 == 0 {', 'if len & 1 == 0 {'),
      (MED, '(median1.clone() + median2.clone()) / 2u64', '(median2 + median1) / 2u64')]),
 dict(n='median-index', props=A, edits=[(MED, '''            let median = list.get(middle_index).ok_or(MEDIAN_INVALID_INDEX)?;
        Result::Ok(Some(median.clone()))''', '''            Result::Ok(Some(list[middle_index].clone()))''')] if False else [(MED, 'Result::Ok(Some(median.clone()))', 'let r = median.clone();\n        Ok(Some(r))')]),
 dict(n='reorder', props=A, edits=[(UT, '''            submissions.clear();
            self.first_submission_timestamp(&token_pair).clear();
            self.last_submission_timestamp(&token_pair).clear();
            self.rounds_new(&token_pair.from, &token_pair.to).set(&feed);
''', '''            self.rounds_new(&token_pair.from, &token_pair.to).set(&feed);
            self.last_submission_timestamp(&token_pair).clear();
            self.first_submission_timestamp(&token_pair).clear();
            submissions.clear();
''')]),
 dict(n='early-return', props=A, edits=[(UT, '''        if submissions_len >= self.submission_count().get() {
            require!(''', '''        if submissions_len < self.submission_count().get() {
            return;
        }
        {
            require!(''')]),
 dict(n='for-each', props=A, edits=[(ADM, '''        for oracle in oracles {
            let _ = oracle_mapper.remove(&oracle);
        }''', '''        oracles.into_iter().for_each(|oracle| {
            let _ = oracle_mapper.remove(&oracle);
        });''')]),
 dict(n='entry-or-insert', props=A, edits=[(ADM, '''            if !oracle_mapper.contains_key(&oracle) {
                let _ = oracle_mapper.insert(
                    oracle.clone(),
                    OracleStatus {
                        total_submissions: 0,
                        accepted_submissions: 0,
                    },
                );
            }''', '''            if oracle_mapper.contains_key(&oracle) {
                continue;
            }
            let status = OracleStatus {
                total_submissions: 0,
                accepted_submissions: 0,
            };
            oracle_mapper.insert(oracle, status);''')]),
 dict(n='match-round', props=A, edits=[(UT, '''        let mut round_id = 0u32;
        let wrapped_rounds = self.rounds_new(&token_pair.from, &token_pair.to);
        if !wrapped_rounds.is_empty() {
            round_id = wrapped_rounds.get().round + 1u32;
        }''', '''        let wrapped_rounds = self.rounds_new(&token_pair.from, &token_pair.to);
        let round_id = match wrapped_rounds.is_empty() {
            true => 0u32,
            false => 1u32 + wrapped_rounds.get().round,
        };''')]),
 dict(n='has-round', props=A, edits=[(VW, '''        require!(self.not_paused(), PAUSED_ERROR);''', '''        if !self.not_paused() {
            sc_panic!(PAUSED_ERROR);
        }''')]),
 dict(n='checked-age', props=A, edits=[(UT, 'current_timestamp - submission_timestamp <= FIRST_SUBMISSION_TIMESTAMP_MAX_DIFF_SECONDS', 'submission_timestamp + FIRST_SUBMISSION_TIMESTAMP_MAX_DIFF_SECONDS >= current_timestamp')]),
 dict(n='iter-collect', props=A, edits=[(UT, '''            for submission_value in submissions.values() {
                submissions_vec.push(submission_value);
            }''', '''            for (_, submission_value) in submissions.iter() {
                submissions_vec.push(submission_value);
            }''')]),
]
