BOR, SUP, WIT, REP, EMO, ACC, UPD = ['controller/src/positions/' + f + '.rs' for f in ('borrow', 'supply', 'withdraw', 'repay', 'emode', 'account', 'update')]
UT, VAL, ORA, CAC, LIB = ['controller/src/' + f for f in ('utils.rs', 'validation.rs', 'oracle/mod.rs', 'cache/mod.rs', 'lib.rs')]
ALL = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10']
REFAC = [
 dict(n='cap-helper', props=['C07', 'C05'], edits=[(BOR, '''                let total_borrow_scaled = self.borrowed(pool.clone()).get();
                let index = cache.cached_market_index(asset);
                let borrowed_amount = self.scaled_to_original(
                    &total_borrow_scaled,
                    &index.borrow_index_ray,
                    amount.scale(),
                );

                require!(
                    borrowed_amount.clone() + amount.clone()
                        <= self.to_decimal(borrow_cap.clone(), borrowed_amount.scale()),
                    ERROR_BORROW_CAP
                );''', '''                let index = cache.cached_market_index(asset);
                let scaled = self.borrowed(pool).get();
                let scale = amount.scale();
                let after = amount.clone()
                    + self.scaled_to_original(&scaled, &index.borrow_index_ray, scale);
                let cap = self.to_decimal(borrow_cap.clone(), scale);
                if after > cap {
                    sc_panic!(ERROR_BORROW_CAP);
                }''')]),
 dict(n='fold-to-for', props=['C03', 'C04'], edits=[(UT, '''        positions
            .iter()
            .fold(self.ray_zero(), |accumulator, position| {
                let price_feed = self.token_price(&position.asset_id, cache);
                let amount = self.total_amount_ray(&position, cache);
                accumulator + self.token_egld_value_ray(&amount, &price_feed.price_wad)
            })''', '''        let mut sum = self.ray_zero();
        for position in positions.iter() {
            let feed = self.token_price(&position.asset_id, cache);
            let amount = self.total_amount_ray(&position, cache);
            sum += self.token_egld_value_ray(&amount, &feed.price_wad);
        }
        sum''')]),
 dict(n='values-order', props=['C03', 'C04'], edits=[(UT, '''            let price_feed = self.token_price(&position.asset_id, cache);
            let amount = self.total_amount_ray(&position, cache);
            let amount_egld = self.token_egld_value_ray(&amount, &price_feed.price_wad);

            total_collateral += &amount_egld;
            weighted_collateral += self.mul_half_up(
                &amount_egld,
                &position.liquidation_threshold_bps,
                RAY_PRECISION,
            );
            ltv_collateral +=
                self.mul_half_up(&amount_egld, &position.loan_to_value_bps, RAY_PRECISION);''', '''            let amount = self.total_amount_ray(&position, cache);
            let price = self.token_price(&position.asset_id, cache).price_wad;
            let value = self.token_egld_value_ray(&amount, &price);
            ltv_collateral += self.mul_half_up(&value, &position.loan_to_value_bps, RAY_PRECISION);
            let threshold = position.liquidation_threshold_bps.clone();
            weighted_collateral += self.mul_half_up(&value, &threshold, RAY_PRECISION);
            total_collateral += value;''')]),
 dict(n='isolated-debt-shape', props=['C08'], edits=[(UT, '''                *debt -= if *debt > amount_in_usd {
                    amount_in_usd
                } else {
                    debt.clone()
                };
                // If dust remains under 1$ globally just erase the tracker
                if *debt < self.wad() {
                    *debt = self.wad_zero();
                }''', '''                if *debt > amount_in_usd {
                    *debt -= amount_in_usd;
                } else {
                    *debt = self.wad_zero();
                }
                if self.wad() > *debt {
                    *debt = self.wad_zero();
                }''')]),
 dict(n='isolated-debt-setget', props=['C08'], edits=[(UT, '''            debt_mapper.update(|debt| *debt += amount_in_usd);''', '''            let mut tracked = debt_mapper.get();
            tracked += amount_in_usd;
            debt_mapper.set(&tracked);''')]),
 dict(n='limits-shape', props=['C09'], edits=[(VAL, '''        let mut new_positions_count = 0;
        for payment in payments {
            if !positions_map.contains_key(&payment.token_identifier) {
                new_positions_count += 1;
            }
        }

        let total_after_transaction = current_count + new_positions_count;
        require!(
            total_after_transaction <= max_allowed,''', '''        let mut total = current_count;
        for payment in payments {
            if positions_map.contains_key(&payment.token_identifier) {
                continue;
            }
            total += 1usize;
        }

        require!(
            max_allowed >= total,''')]),
 dict(n='nft-return-helper', props=['C02', 'C10'], edits=[(WIT, '''            self.account()
                .nft_burn(account_payment.token_nonce, &account_payment.amount);
            self.accounts().swap_remove(&account_payment.token_nonce);
            self.account_attributes(account_payment.token_nonce).clear();
        } else {
            self.tx().to(caller).payment(account_payment).transfer();
        }
    }''', '''            self.close_account(account_payment);
            return;
        }
        self.tx().to(caller).payment(account_payment).transfer();
    }

    fn close_account(&self, account_payment: &EsdtTokenPayment<Self::Api>) {
        let nonce = account_payment.token_nonce;
        self.account_attributes(nonce).clear();
        self.accounts().swap_remove(&nonce);
        self.account().nft_burn(nonce, &account_payment.amount);
    }''')]),
 dict(n='positions-empty', props=['C02'], edits=[(WIT, '''        let deposit_positions_count = self
            .positions(account_payment.token_nonce, AccountPositionType::Deposit)
            .len();
        let borrow_positions_count = self
            .positions(account_payment.token_nonce, AccountPositionType::Borrow)
            .len();

        // Burn NFT if position is fully closed
        if deposit_positions_count == 0 && borrow_positions_count == 0 {''', '''        let nonce = account_payment.token_nonce;
        // Burn NFT if position is fully closed
        if self.positions(nonce, AccountPositionType::Deposit).is_empty()
            && self.positions(nonce, AccountPositionType::Borrow).is_empty()
        {''')]),
 dict(n='silo-shape', props=['C05'], edits=[(BOR, '''            if first_asset_config.is_siloed_borrowing() || asset_config.is_siloed_borrowing() {
                require!(
                    token_id == &first_position.asset_id,
                    ERROR_ASSET_NOT_BORROWABLE_IN_SILOED
                );
            }''', '''            let siloed = asset_config.is_siloed_borrowing || first_asset_config.is_siloed_borrowing;
            require!(
                !siloed || first_position.asset_id == *token_id,
                ERROR_ASSET_NOT_BORROWABLE_IN_SILOED
            );''')]),
 dict(n='position-match', props=['C06', 'C10'], edits=[(SUP, '''        self.positions(account_nonce, AccountPositionType::Deposit)
            .get(token_id)
            .unwrap_or_else(|| {
                AccountPosition::new(
                    AccountPositionType::Deposit,
                    token_id.clone(),
                    self.ray_zero(),
                    account_nonce,
                    asset_info.liquidation_threshold_bps.clone(),
                    asset_info.liquidation_bonus_bps.clone(),
                    asset_info.liquidation_fees_bps.clone(),
                    asset_info.loan_to_value_bps.clone(),
                )
            })''', '''        let map = self.positions(account_nonce, AccountPositionType::Deposit);
        match map.get(token_id) {
            Some(found) => found,
            None => AccountPosition {
                position_type: AccountPositionType::Deposit,
                asset_id: token_id.clone(),
                scaled_amount_ray: self.ray_zero(),
                account_nonce,
                liquidation_threshold_bps: asset_info.liquidation_threshold_bps.clone(),
                liquidation_bonus_bps: asset_info.liquidation_bonus_bps.clone(),
                liquidation_fees_bps: asset_info.liquidation_fees_bps.clone(),
                loan_to_value_bps: asset_info.loan_to_value_bps.clone(),
            },
        }''')]),
 dict(n='upgrade-unconditional', props=['C06'], edits=[(SUP, '''        if position.loan_to_value_bps != asset_info.loan_to_value_bps {
            position.loan_to_value_bps = asset_info.loan_to_value_bps.clone();
        }

        if position.liquidation_bonus_bps != asset_info.liquidation_bonus_bps {
            position.liquidation_bonus_bps = asset_info.liquidation_bonus_bps.clone();
        }

        if position.liquidation_fees_bps != asset_info.liquidation_fees_bps {
            position.liquidation_fees_bps = asset_info.liquidation_fees_bps.clone();
        }
''', '''        position.loan_to_value_bps = asset_info.loan_to_value_bps.clone();
        position.liquidation_bonus_bps = asset_info.liquidation_bonus_bps.clone();
        position.liquidation_fees_bps = asset_info.liquidation_fees_bps.clone();
''')]),
 dict(n='isolated-collateral-shape', props=['C06'], edits=[(SUP, '''        let is_isolated = asset_info.is_isolated() || position_attributes.is_isolated();
        if !is_isolated {
            return;
        }

        // Allow existing isolated positions to continue working even if asset becomes non-isolated
        if position_attributes.is_isolated() {''', '''        if position_attributes.is_isolated() {''')]),
 dict(n='health-early', props=['C04'], edits=[(UT, '''        let deposit_positions = self.positions(account_nonce, AccountPositionType::Deposit);
        let (collateral, _, _) =
            self.calculate_collateral_values(&deposit_positions.values().collect(), cache);
        let borrowed =
            self.calculate_total_borrow_in_egld(&borrow_positions.values().collect(), cache);
        let health_factor = self.compute_health_factor(&collateral, &borrowed);
''', '''        let borrows = borrow_positions.values().collect();
        let borrowed = self.calculate_total_borrow_in_egld(&borrows, cache);
        let deposits = self.positions(account_nonce, AccountPositionType::Deposit).values().collect();
        let values = self.calculate_collateral_values(&deposits, cache);
        let health_factor = self.compute_health_factor(&values.0, &borrowed);
''')]),
 dict(n='cache-shape', props=['C19', 'C05'], edits=[(CAC, '''        let is_cached = self.asset_configs.contains(token_id);
        if is_cached {
            return self.asset_configs.get(token_id);
        }

        let new = self.sc_ref.asset_config(token_id).get();
        self.asset_configs.put(token_id, &new);

        new''', '''        if !self.asset_configs.contains(token_id) {
            let config = self.sc_ref.asset_config(token_id).get();
            self.asset_configs.put(token_id, &config);
            return config;
        }
        self.asset_configs.get(token_id)''')]),
 dict(n='index-shape', props=['C04', 'C08'], edits=[(UT, '''        let indexes = cache.cached_market_index(&position.asset_id);
        let index = if position.position_type == AccountPositionType::Deposit {
            indexes.supply_index_ray
        } else {
            indexes.borrow_index_ray
        };

        self.scaled_to_original_ray(&position.scaled_amount_ray, &index)''', '''        let indexes = cache.cached_market_index(&position.asset_id);
        match position.position_type {
            AccountPositionType::Deposit => self
                .scaled_to_original_ray(&position.scaled_amount_ray, &indexes.supply_index_ray),
            _ => self.scaled_to_original_ray(&position.scaled_amount_ray, &indexes.borrow_index_ray),
        }''')]),
]
