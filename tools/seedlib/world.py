"""A small chain for demonstrations: runs messages on the natively compiled contracts of /repo, keeps their storage, moves
coins and NFTs as the accepted messages say."""
import base64
import json
import subprocess
import sys

ME = 'market00000000'


class World:
    def __init__(self, contract, me=ME):
        self.c, self.me = contract, me
        self.p = subprocess.Popen([sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.storage = []
        self.owner = {}            # (collection, token) -> owner
        self.approved = set()      # (collection, token)
        self.start = {}            # collection -> start of trading (ns)
        self.royalty = {}          # collection -> (recipient, share)
        self.registry = {}         # collection -> (recipient, share): v2 registry
        self.creator = {}
        self.bal = {}
        self.time, self.height = 1_000 * 10**9, 100
        self.invalid = []

    def queries(self):
        r = []
        cs = set(c for c, _ in self.owner) | set(self.start) | set(self.royalty)
        for (c, t), o in self.owner.items():
            for e in (False, True, None):
                r.append(dict(kind='smart', contract=c, msg={'owner_of': {'token_id': t, 'include_expired': e}}, ok={'owner': o, 'approvals': []}))
                if (c, t) in self.approved:
                    r.append(dict(kind='smart', contract=c, msg={'approval': {'token_id': t, 'spender': self.me, 'include_expired': e}},
                                  ok={'approval': {'spender': self.me, 'expires': {'never': {}}}}))
        for c in cs:
            ro = self.royalty.get(c)
            st = self.start.get(c)
            r.append(dict(kind='smart', contract=c, msg={'collection_info': {}},
                          ok={'creator': self.creator.get(c, 'creator0000000'), 'description': '', 'image': '', 'external_link': None, 'explicit_content': None,
                              'start_trading_time': None if st is None else str(st),
                              'royalty_info': None if ro is None else {'payment_address': ro[0], 'share': ro[1]}}))
            ri = self.registry.get(c)
            r.append(dict(kind='smart', contract='registry000000', msg={'royalty_payment': {'collection': c, 'protocol': self.me}},
                          ok={'royalty_default': None if ri is None else {'collection': c, 'royalty_entry': {'recipient': ri[0], 'share': ri[1], 'updated': None}},
                              'royalty_protocol': None}))
        return r

    def call(self, entry, msg, sender=None, funds=()):
        case = dict(contract=self.c, entry=entry, msg=msg, storage=self.storage, queries=self.queries(), invalid=self.invalid,
                    env=dict(block=dict(height=self.height, time=str(self.time), chain_id='x'), transaction=dict(index=0), contract=dict(address=self.me)),
                    info=None if sender is None else dict(sender=sender, funds=[dict(denom=d, amount=str(a)) for d, a in funds]))
        self.p.stdin.write(json.dumps(case) + '\n')
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        if r['status'] == 'input':
            raise SystemExit(f"bad demonstration input: {r['error']}")
        return r

    def run(self, entry, msg, sender=None, funds=()):
        """-> response data, or None when it was rejected (self.error says why)"""
        r = self.call(entry, msg, sender, funds)
        self.error = r['error']
        self.status = r['status']
        if r['status'] != 'ok':
            return None
        if entry == 'query':
            return r['data']
        self.storage = r['storage']
        for d, a in funds:
            self.add(sender, d, -a)
            self.add(self.me, d, a)
        self.msgs = [m['msg'] for m in r['data']['messages']]
        for m in self.msgs:
            self.apply(m)
        return r['data']

    def ok(self, *a, **k):
        r = self.run(*a, **k)
        assert r is not None, f'rejected: {self.error}'
        return r

    def x(self, msg, sender, *funds):
        return self.run('execute', msg, sender, funds)

    def xok(self, msg, sender, *funds):
        return self.ok('execute', msg, sender, funds)

    def q(self, msg):
        r = self.call('query', msg)
        assert r['status'] == 'ok', r['error']
        return r['data']

    def add(self, who, denom, n):
        self.bal[who, denom] = self.bal.get((who, denom), 0) + n

    def b(self, who, denom):
        return self.bal.get((who, denom), 0)

    def apply(self, m):
        if 'bank' in m:
            k, v = next(iter(m['bank'].items()))
            for c in v['amount']:
                self.add(self.me, c['denom'], -int(c['amount']))
                self.add(v['to_address'] if k == 'send' else 'burned', c['denom'], int(c['amount']))
        elif 'wasm' in m and 'execute' in m['wasm']:
            e = m['wasm']['execute']
            x = json.loads(base64.b64decode(e['msg']))
            for c in e['funds']:
                self.add(self.me, c['denom'], -int(c['amount']))
                self.add(e['contract_addr'], c['denom'], int(c['amount']))
            if 'transfer_nft' in x:
                t = x['transfer_nft']
                self.owner[e['contract_addr'], t['token_id']] = t['recipient']
        elif 'custom' in m:
            c = m['custom']
            d = c.get('msg_data', c)
            s = json.dumps(d)
            for k, v in d.items() if isinstance(d, dict) else ():
                if isinstance(v, dict) and 'amount' in v:
                    for coin in v['amount']:
                        self.add(self.me, coin['denom'], -int(coin['amount']))
                        self.add(k, coin['denom'], int(coin['amount']))


def v2_world(**kw):
    w = World('v2')
    cfg = dict(fee_manager='feemanager0000', royalty_registry='registry000000', protocol_fee_bps=200, max_royalty_fee_bps=500, maker_reward_bps=4000,
               taker_reward_bps=1000, default_denom='ustars')
    cfg.update(kw)
    w.cfg = cfg
    w.ok('instantiate', {'config': cfg}, 'admin000000000')
    w.admin = 'admin000000000'
    q = w.queries

    def more():
        return q() + [dict(kind='info', contract=w.me, msg=None, ok={'code_id': 1, 'creator': 'admin000000000', 'admin': w.admin, 'pinned': False, 'ibc_port': None})]
    w.queries = more
    w.xok({'set_listing_fee': {'fee': {'denom': 'ustars', 'amount': '5'}}}, 'admin000000000')
    return w


def det(amount, denom='ustars', recipient=None, finder=None):
    return {'price': {'denom': denom, 'amount': str(amount)}, 'recipient': recipient, 'finder': finder}


def v2_list(w, coll, tok, seller, details, fee=('ustars', 5)):
    w.owner[coll, tok] = seller
    return w.xok({'set_ask': {'collection': coll, 'token_id': tok, 'details': details}}, seller, fee)


def ra_world(**kw):
    w = World('ra')
    m = dict(fair_burn='fairburn000000', trading_fee_percent='0.02', min_bid_increment_percent='0.1', min_duration=60, max_duration=100000, extend_duration=900,
             create_auction_fee={'denom': 'ustars', 'amount': '5'}, max_auctions_to_settle_per_block=10, halt_duration_threshold=900, halt_buffer_duration=600,
             halt_postpone_duration=1200, min_reserve_prices=[{'denom': 'ustars', 'amount': '10'}])
    m.update(kw)
    w.ok('instantiate', m, 'admin000000000')
    return w


def ra_create(w, coll, tok, seller, reserve, duration=1000, recipient=None):
    w.owner[coll, tok] = seller
    w.approved.add((coll, tok))
    w.xok({'create_auction': {'collection': coll, 'token_id': tok, 'reserve_price': {'denom': 'ustars', 'amount': str(reserve)}, 'duration': duration,
                              'seller_funds_recipient': recipient}}, seller, ('ustars', 5))


def ra_bid(w, coll, tok, who, amount):
    return w.x({'place_bid': {'collection': coll, 'token_id': tok}}, who, ('ustars', amount))


def v1_world(**kw):
    w = World('v1')
    m = dict(trading_fee_bps=200, ask_expiry={'min': 10, 'max': 100000}, bid_expiry={'min': 10, 'max': 100000}, operators=['operator000000'], sale_hook=None,
             max_finders_fee_bps=1000, min_price='5', stale_bid_duration={'time': 100}, bid_removal_reward_bps=500, listing_fee='0')
    m.update(kw)
    w.ok('instantiate', m, 'admin000000000')
    return w


def v1_ask(w, coll, tok, seller, price, sale='fixed_price', expires=None, **kw):
    w.owner[coll, str(tok)] = seller
    w.approved.add((coll, str(tok)))
    m = dict(sale_type=sale, collection=coll, token_id=tok, price={'denom': 'ustars', 'amount': str(price)}, funds_recipient=None, reserve_for=None,
             finders_fee_bps=None, expires=str(expires or w.time + 1000 * 10**9))
    m.update(kw)
    return w.xok({'set_ask': m}, seller)


def v1_bid(w, coll, tok, who, price, sale='fixed_price', expires=None, **kw):
    m = dict(sale_type=sale, collection=coll, token_id=tok, expires=str(expires or w.time + 1000 * 10**9), finder=None, finders_fee_bps=None)
    m.update(kw)
    return w.x({'set_bid': m}, who, ('ustars', price))
