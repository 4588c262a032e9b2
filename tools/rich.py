"""Small values with many derived attributes, for mkcorpus.py: certificates, CRLs and OCSP messages."""
import random
from datetime import datetime, timezone

from dst import lib


def names(r):
    x509 = lib.mod('x509')
    core = lib.core()

    def ds(text):
        kind = r.choice(['utf8', 'utf8', 'printable', 'teletex', 'bmp', 'universal'])
        if kind == 'teletex':
            raw = r.choice([b'Caf\xe9', b'M\xfcller', b'plain', b'\xa4\xe1'])
            return x509.DirectoryString.load(b'\x14' + bytes([len(raw)]) + raw)
        cls = {'utf8': core.UTF8String, 'printable': core.PrintableString, 'bmp': core.BMPString,
               'universal': core.UniversalString}[kind]
        return x509.DirectoryString(name={'utf8': 'utf8_string', 'printable': 'printable_string', 'bmp': 'bmp_string',
                                          'universal': 'universal_string'}[kind], value=cls(text))
    rdns = []
    for _ in range(r.choice([1, 2, 3])):
        ntvs = []
        for _ in range(r.choice([1, 1, 1, 2])):
            t = r.choice(['common_name', 'organization_name', 'common_name', 'country_name', 'domain_component', 'email_address'])
            if t == 'domain_component':
                v = x509.DNSName(r.choice(['Example', 'com']))
            elif t == 'email_address':
                v = x509.EmailAddress(r.choice(['Joe@Example.COM', 'a@b.c', 'root']))
            else:
                v = ds(r.choice(['Ab', 'Example, Inc', 'www.Example.com', 'X  Y', '*.a.org', 'q']))
            ntvs.append(x509.NameTypeAndValue({'type': t, 'value': v}))
        ntvs.sort(key=lambda n: n.dump())
        rdns.append(x509.RelativeDistinguishedName(ntvs))
    return x509.Name(name='', value=x509.RDNSequence(rdns))


def general_name(r, url=False):
    x509 = lib.mod('x509')
    k = 'url' if url else r.choice(['dns', 'dns', 'email', 'ip', 'ip6', 'url', 'dir', 'rid'])
    if k == 'dns':
        return x509.GeneralName('dns_name', r.choice(['A.example.com', 'a.Example.com', '*.b.org', 'b.org', '.sub.example',
                                                        '*.example.com', 'f*.example.com', 'example.com']))
    if k == 'email':
        return x509.GeneralName('rfc822_name', r.choice(['Joe@Example.COM', 'x@y.z']))
    if k == 'ip':
        return x509.GeneralName('ip_address', r.choice(['10.0.0.1', '127.0.0.1']))
    if k == 'ip6':
        return x509.GeneralName('ip_address', r.choice(['::1', 'fe80::1:2']))
    if k == 'url':
        return x509.GeneralName('uniform_resource_identifier', r.choice(
            ['http://a.b/C', 'http://Ex.com/%7Eu', 'ldap://q/', 'HTTP://h.i/', 'https://s.t/x?y=1#z']))
    if k == 'dir':
        return x509.GeneralName('directory_name', names(r))
    return x509.GeneralName('registered_id', '1.2.3.4')


def general_names(r, n=3, url=False):
    x509 = lib.mod('x509')
    return x509.GeneralNames([general_name(r, url and r.random() < .8) for _ in range(r.randint(1, n))])


def points(r):
    x509 = lib.mod('x509')
    core = lib.core()
    out = []
    for _ in range(r.randint(1, 2)):
        d = {}
        if r.random() < 0.85:
            if r.random() < 0.15:
                ntv = {'type': 'common_name', 'value': x509.DirectoryString(name='utf8_string', value=core.UTF8String('Point'))}
                d['distribution_point'] = x509.DistributionPointName('name_relative_to_crl_issuer',
                                                                     x509.RelativeDistinguishedName([ntv]))
            else:
                d['distribution_point'] = x509.DistributionPointName('full_name', general_names(r, 2, r.random() < .7))
        if r.random() < 0.3:
            d['reasons'] = set(['key_compromise'])
        if not d or r.random() < 0.2:
            d['crl_issuer'] = general_names(r, 1)
        out.append(d)
    return x509.CRLDistributionPoints(out)


def cert_extension(r, name):
    x509 = lib.mod('x509')
    core = lib.core()
    if name == 'key_identifier':
        v = core.OctetString(b'keyid' + bytes([r.randrange(256)]))
    elif name == 'key_usage':
        v = x509.KeyUsage(set(r.sample(['digital_signature', 'key_cert_sign', 'crl_sign'], r.randint(1, 3))))
    elif name == 'private_key_usage_period':
        v = x509.PrivateKeyUsagePeriod({'not_before': datetime(2020, 1, 1, tzinfo=timezone.utc)})
    elif name in ('subject_alt_name', 'issuer_alt_name'):
        v = general_names(r, 5)
    elif name == 'basic_constraints':
        v = x509.BasicConstraints(r.choice([{'ca': True}, {'ca': True, 'path_len_constraint': r.randrange(3)}, {'ca': False}]))
    elif name == 'name_constraints':
        v = x509.NameConstraints({'permitted_subtrees': [{'base': x509.GeneralName('dns_name', '.Example.com')}]})
    elif name in ('crl_distribution_points', 'freshest_crl'):
        v = points(r)
    elif name == 'certificate_policies':
        v = x509.CertificatePolicies([{'policy_identifier': '1.2.3'}, {'policy_identifier': 'any_policy', 'policy_qualifiers': [
            {'policy_qualifier_id': 'certification_practice_statement', 'qualifier': 'http://c.p/S'}]}])
    elif name == 'policy_mappings':
        v = x509.PolicyMappings([{'issuer_domain_policy': '1.2.3', 'subject_domain_policy': '1.2.4'}])
    elif name == 'authority_key_identifier':
        v = x509.AuthorityKeyIdentifier(r.choice([
            {'key_identifier': b'auth'},
            {'key_identifier': b'auth', 'authority_cert_issuer': [x509.GeneralName('directory_name', names(r))],
             'authority_cert_serial_number': r.randrange(1 << 30)},
            {'authority_cert_issuer': [], 'authority_cert_serial_number': 5},
            {'authority_cert_serial_number': 300},
            {'key_identifier': b'', 'authority_cert_issuer': [x509.GeneralName('dns_name', 'a.b'),
                                                              x509.GeneralName('directory_name', names(r))],
             'authority_cert_serial_number': 1}]))
    elif name == 'policy_constraints':
        v = x509.PolicyConstraints({'require_explicit_policy': 1})
    elif name == 'extended_key_usage':
        v = x509.ExtKeyUsageSyntax(r.sample(['server_auth', 'client_auth', 'ocsp_signing', '1.2.3.9'], r.randint(1, 3)))
    elif name == 'inhibit_any_policy':
        v = core.Integer(r.randrange(4))
    elif name == 'authority_information_access':
        v = x509.AuthorityInfoAccessSyntax([{'access_method': r.choice(['ocsp', 'ca_issuers', 'ocsp']),
                                             'access_location': general_name(r, True)} for _ in range(r.randint(1, 3))])
    elif name == 'subject_information_access':
        v = x509.SubjectInfoAccessSyntax([{'access_method': 'ca_repository', 'access_location': general_name(r, True)}])
    elif name == 'tls_feature':
        v = x509.Features([5])
    elif name == 'ocsp_no_check':
        v = core.Null()
    else:
        raise AssertionError(name)
    return {'extn_id': name, 'critical': r.random() < 0.4, 'extn_value': v}


CERT = ['key_identifier', 'key_usage', 'private_key_usage_period', 'subject_alt_name', 'subject_alt_name', 'issuer_alt_name',
        'basic_constraints', 'name_constraints', 'crl_distribution_points', 'freshest_crl', 'certificate_policies',
        'policy_mappings', 'authority_key_identifier', 'policy_constraints', 'extended_key_usage', 'inhibit_any_policy',
        'authority_information_access', 'subject_information_access', 'tls_feature', 'ocsp_no_check']


def certificate(r):
    x509 = lib.mod('x509')
    keys = lib.mod('keys')
    core = lib.core()
    which = []
    for n in r.sample(CERT, r.choice([2, 3, 4, 6])):
        if n not in which:
            which.append(n)
    issuer = names(r)
    kind = r.choice(['ed25519', 'rsa', 'ec'])
    if kind == 'rsa':
        key = keys.PublicKeyInfo({'algorithm': {'algorithm': 'rsa', 'parameters': core.Null()},
                                  'public_key': keys.RSAPublicKey({'modulus': (1 << 63) + r.getrandbits(60), 'public_exponent': 65537})})
    elif kind == 'ec':
        key = keys.PublicKeyInfo({'algorithm': {'algorithm': 'ec', 'parameters': keys.ECDomainParameters('named', 'secp112r1')},
                                  'public_key': keys.ECPoint if False else keys.ECPointBitString(b'\x04' + bytes(28))})
    else:
        key = keys.PublicKeyInfo({'algorithm': {'algorithm': 'ed25519'}, 'public_key': b'k' * 32})
    alg = r.choice([{'algorithm': 'ed25519'}, {'algorithm': 'sha256_rsa', 'parameters': core.Null()}, {'algorithm': 'sha256_ecdsa'}])
    return x509.Certificate({
        'tbs_certificate': {
            'version': 'v3', 'serial_number': r.randrange(1 << 40), 'signature': alg, 'issuer': issuer,
            'validity': {'not_before': x509.Time('utc_time', datetime(2020, 1, 2, tzinfo=timezone.utc)),
                         'not_after': x509.Time('general_time', datetime(2060, 1, 2, tzinfo=timezone.utc))},
            'subject': issuer if r.random() < 0.4 else names(r),
            'subject_public_key_info': key,
            'extensions': [cert_extension(r, n) for n in which],
        },
        'signature_algorithm': alg, 'signature_value': b'sig'})


def crl(r):
    crl = lib.mod('crl')
    x509 = lib.mod('x509')
    core = lib.core()
    issuer = names(r)
    t = datetime(2021, 2, 3, 4, 5, 6, tzinfo=timezone.utc)
    revoked = []
    for i in range(r.randint(1, 3)):
        ext = []
        for n in r.sample(['crl_reason', 'hold_instruction_code', 'invalidity_date', 'certificate_issuer'], r.randint(0, 3)):
            v = {'crl_reason': lambda: crl.CRLReason('key_compromise'), 'hold_instruction_code': lambda: core.ObjectIdentifier('1.2.840.10040.2.1'),
                 'invalidity_date': lambda: core.GeneralizedTime(t),
                 'certificate_issuer': lambda: x509.GeneralNames([x509.GeneralName('directory_name', names(r))])}[n]()
            ext.append({'extn_id': n, 'critical': r.random() < .5, 'extn_value': v})
        d = {'user_certificate': i + 1, 'revocation_date': x509.Time('utc_time', t)}
        if ext:
            d['crl_entry_extensions'] = ext
        revoked.append(d)
    exts = []
    for n in r.sample(['issuer_alt_name', 'crl_number', 'delta_crl_indicator', 'issuing_distribution_point',
                       'authority_key_identifier', 'freshest_crl', 'authority_information_access'], r.randint(1, 5)):
        if n in ('crl_number', 'delta_crl_indicator'):
            v = core.Integer(r.randrange(300))
        elif n == 'issuing_distribution_point':
            v = crl.IssuingDistributionPoint({'distribution_point': x509.DistributionPointName('full_name', general_names(r, 2, True)),
                                              'only_contains_user_certs': True})
        else:
            v = cert_extension(r, n)['extn_value']
        exts.append({'extn_id': n, 'critical': r.random() < .4, 'extn_value': v})
    alg = {'algorithm': 'sha256_rsa', 'parameters': core.Null()}
    return crl.CertificateList({'tbs_cert_list': {
        'version': 'v2', 'signature': alg, 'issuer': issuer, 'this_update': x509.Time('utc_time', t),
        'revoked_certificates': revoked, 'crl_extensions': exts}, 'signature_algorithm': alg, 'signature': b's'})


def crl_urls(r):
    """A CRL with places to fetch more from"""
    x509 = lib.mod('x509')
    c = crl(r)
    url = lambda: x509.GeneralName('uniform_resource_identifier', r.choice(['http://a.b/C', 'HTTP://h.i/', 'ldap://q/', 'http://z.y/x']))
    exts = [
        {'extn_id': 'authority_information_access', 'critical': False, 'extn_value': x509.AuthorityInfoAccessSyntax([
            {'access_method': r.choice(['ca_issuers', 'ca_issuers', 'ocsp']), 'access_location': url()} for _ in range(r.randint(1, 4))])},
        {'extn_id': 'freshest_crl', 'critical': r.random() < .3, 'extn_value': x509.CRLDistributionPoints([
            {'distribution_point': x509.DistributionPointName('full_name', x509.GeneralNames([url() for _ in range(r.randint(1, 2))]))}
            for _ in range(r.randint(1, 3))])}]
    if r.random() < 0.4:
        exts.pop(r.randrange(2))
    c['tbs_cert_list']['crl_extensions'] = exts
    return c.copy()


def cert_id(r):
    return {'hash_algorithm': {'algorithm': 'sha1'}, 'issuer_name_hash': b'n' * 4, 'issuer_key_hash': b'k' * 4,
            'serial_number': r.randrange(1 << 30)}


def request(r):
    ocsp = lib.mod('ocsp')
    core = lib.core()
    x509 = lib.mod('x509')
    reqs = []
    for _ in range(r.randint(1, 2)):
        d = {'req_cert': cert_id(r)}
        if r.random() < 0.5:
            d['single_request_extensions'] = [{'extn_id': 'service_locator', 'critical': r.random() < .5, 'extn_value':
                                               ocsp.ServiceLocator({'issuer': names(r), 'locator': x509.AuthorityInfoAccessSyntax([
                                                   {'access_method': 'ocsp', 'access_location': general_name(r, True)}])})}]
        reqs.append(d)
    ext = []
    if r.random() < 0.8:
        ext.append({'extn_id': 'nonce', 'critical': r.random() < .5, 'extn_value': core.OctetString(b'n0nce')})
    if r.random() < 0.5:
        ext.append({'extn_id': 'acceptable_responses', 'extn_value': ocsp.AcceptableResponses(['basic_ocsp_response'])})
    if r.random() < 0.3:
        ext.append({'extn_id': 'preferred_signature_algorithms', 'extn_value': ocsp.PreferredSignatureAlgorithms([
            {'sig_identifier': {'algorithm': 'sha256_ecdsa'}}])})
    tbs = {'request_list': reqs}
    if ext:
        tbs['request_extensions'] = ext
    return ocsp.OCSPRequest({'tbs_request': tbs})


def response(r):
    ocsp = lib.mod('ocsp')
    core = lib.core()
    crl = lib.mod('crl')
    t = datetime(2021, 2, 3, 4, 5, 6, tzinfo=timezone.utc)
    rs = []
    for _ in range(r.randint(1, 2)):
        d = {'cert_id': cert_id(r), 'cert_status': ocsp.CertStatus('good', core.Null()) if r.random() < .6 else ocsp.CertStatus(
            'revoked', {'revocation_time': t, 'revocation_reason': 'key_compromise'}), 'this_update': t}
        ext = []
        for n in r.sample(['crl', 'archive_cutoff', 'crl_reason', 'invalidity_date'], r.randint(0, 3)):
            v = {'crl': lambda: ocsp.CrlId({'crl_url': 'http://a.b/c'}), 'archive_cutoff': lambda: core.GeneralizedTime(t),
                 'crl_reason': lambda: crl.CRLReason('superseded'), 'invalidity_date': lambda: core.GeneralizedTime(t)}[n]()
            ext.append({'extn_id': n, 'critical': r.random() < .5, 'extn_value': v})
        if ext:
            d['single_extensions'] = ext
        rs.append(d)
    data = {'responder_id': ocsp.ResponderId('by_name', names(r)) if r.random() < .5 else ocsp.ResponderId('by_key', core.OctetString(b'k')),
            'produced_at': t, 'responses': rs}
    ext = [{'extn_id': 'nonce', 'critical': r.random() < .5, 'extn_value': core.OctetString(b'n0nce')}]
    if r.random() < 0.5:
        ext.append({'extn_id': 'extended_revoke', 'extn_value': core.Null()})
    data['response_extensions'] = ext
    return ocsp.OCSPResponse({'response_status': 'successful', 'response_bytes': {
        'response_type': 'basic_ocsp_response', 'response': ocsp.BasicOCSPResponse({
            'tbs_response_data': data, 'signature_algorithm': {'algorithm': 'sha256_ecdsa'}, 'signature': b's'})}})


def aux(r):
    x509 = lib.mod('x509')
    d = {}
    if r.random() < 0.7:
        d['trust'] = ['server_auth', 'email_protection'][:r.randint(1, 2)]
    if r.random() < 0.4:
        d['reject'] = ['client_auth']
    if r.random() < 0.6:
        d['alias'] = 'A trusted One'
    if r.random() < 0.5:
        d['keyid'] = b'id'
    return x509.CertificateAux(d).dump() if d else b''


def kdf(r):
    algos = lib.mod('algos')
    if r.random() < 0.3:
        p = {'salt': b'salt', 'cost_parameter': 1024, 'block_size': 8, 'parallelization_parameter': r.choice([1, 16])}
        if r.random() < 0.5:
            p['key_length'] = 32
        return algos.KdfAlgorithm({'algorithm': 'scrypt', 'parameters': p})
    if r.random() < 0.7:
        salt = algos.Pbkdf2Salt('specified', b'saltsalt')
    else:
        salt = algos.Pbkdf2Salt('other_source', {'algorithm': '1.2.3.4', 'parameters': lib.core().Null()})
    p = {'salt': salt, 'iteration_count': r.choice([1, 2048])}
    if r.random() < 0.4:
        p['key_length'] = r.choice([5, 16, 24])
    if r.random() < 0.5:
        p['prf'] = {'algorithm': r.choice(['sha1', 'sha256', 'sha512'])}
    return algos.KdfAlgorithm({'algorithm': 'pbkdf2', 'parameters': p})


def scheme(r, name):
    algos = lib.mod('algos')
    d = {'algorithm': name}
    if name == 'rc2':
        d['parameters'] = {'iv': b'12345678'}
        v = r.choice([None, 160, 120, 58, 256, 1024, 99])
        if v is not None:
            d['parameters']['rc2_parameter_version'] = v
    elif name == 'rc5':
        d['parameters'] = {'version': 'v1-0', 'rounds': 12, 'block_size_in_bits': r.choice([64, 128])}
        if r.random() < 0.5:
            d['parameters']['iv'] = b'12345678'
    elif name.endswith('_ccm'):
        d['parameters'] = {'aes_nonce': b'nonce', 'aes_icvlen': 8}
    elif name == 'pbes2':
        d['parameters'] = {'key_derivation_func': kdf(r), 'encryption_scheme': scheme(r, r.choice(SCHEMES[:12]))}
    elif name.startswith('pbes1') or name.startswith('pkcs12'):
        d['parameters'] = {'salt': b'salt', 'iterations': 3}
    elif name == 'rsaes_oaep':
        d['parameters'] = r.choice([
            algos.RSAESOAEPParams.load(b'\x30\x00'), {'hash_algorithm': {'algorithm': 'sha256'}},
            {'p_source_algorithm': {'algorithm': 'p_specified', 'parameters': b'label'}}])
    elif name in ('rsaes_pkcs1v15', 'rc4'):
        d['parameters'] = lib.core().Null()
    elif '_wrap' in name or name.endswith('_ecb'):
        pass
    elif name.endswith('_gcm') or name.endswith('_cfb'):
        d['parameters'] = lib.core().OctetString(b'0123456789ab')
    elif '.' not in name:
        d['parameters'] = b'0123456789abcdef'
    return algos.EncryptionAlgorithm(d)


SCHEMES = ['rc2', 'des', 'tripledes_3key', 'aes128_cbc', 'aes192_ofb', 'aes256_cfb', 'rc5', 'aes256_gcm', 'aes128_ccm', 'rc2',
           'aes192_ecb', 'rc4', 'aes128_wrap', 'pbes2', 'pbes2', 'pbes1_md5_des', 'pbes1_sha1_rc2', 'pkcs12_sha1_rc4_40',
           'pkcs12_sha1_tripledes_2key', 'pkcs12_sha1_rc2_40', 'rsaes_oaep', 'rsaes_pkcs1v15', '1.2.3.4', 'pbes2', 'pbes2']


def ec_params(r, known=False):
    keys = lib.mod('keys')
    k = r.choice(['named', 'named', 'unknown', 'implicit', 'specified'])
    if known and k in ('unknown', 'implicit'):
        k = 'named'
    if k == 'named':
        return keys.ECDomainParameters('named', r.choice(['secp256r1', 'secp521r1', 'sect163k1']))
    if k == 'unknown':
        return keys.ECDomainParameters('named', '1.3.9.9.9')
    if k == 'implicit':
        return keys.ECDomainParameters('implicit_ca', lib.core().Null())
    return keys.ECDomainParameters('specified', {
        'version': 'ecdpVer1', 'field_id': {'field_type': 'prime_field', 'parameters': 65537},
        'curve': {'a': b'\x00\x00\x01', 'b': b'\x00\x00\x02'}, 'base': keys.ECPoint(b'\x04\x00\x00\x01\x00\x00\x02'),
        'order': 65521, 'cofactor': 1})


def dsa_params(r):
    return {'p': (1 << r.choice([63, 127])) + 9, 'q': (1 << r.choice([19, 159, 200])) + 7, 'g': 5}


def public_key(r):
    keys = lib.mod('keys')
    core = lib.core()
    k = r.choice(['rsa', 'rsassa_pss', 'rsaes_oaep', 'dsa', 'dsa', 'ec', 'ec', 'ec', 'dh', 'ed25519', 'x448', '1.2.3.4'])
    algo = keys.PublicKeyAlgorithm()
    algo['algorithm'] = k
    if k in ('rsa', 'rsassa_pss', 'rsaes_oaep'):
        if k == 'rsa':
            algo['parameters'] = core.Null()
        elif k == 'rsassa_pss' and r.random() < .6:
            algo['parameters'] = lib.mod('algos').RSASSAPSSParams({'hash_algorithm': {'algorithm': 'sha256'}})
        key = keys.RSAPublicKey({'modulus': (1 << r.choice([65, 512])) + 3, 'public_exponent': 65537})
    elif k == 'dsa':
        if r.random() < .6:
            algo['parameters'] = dsa_params(r)
        key = core.Integer(12345)
    elif k == 'ec':
        algo['parameters'] = ec_params(r)
        key = keys.ECPointBitString(r.choice([b'\x04' + b'\x01' * 32 + b'\x02' * 32, b'\x02' + b'\x03' * 32, b'\x04\x01\x02']))
    elif k == 'dh':
        algo['parameters'] = {'p': 1 << 70, 'g': 2, 'q': 1 << 60}
        key = core.Integer(777)
    elif k == '1.2.3.4':
        key = core.ParsableOctetBitString(b'\x02\x01\x05')
    else:
        key = core.OctetBitString(b'k' * 32)
    info = keys.PublicKeyInfo()
    info['algorithm'] = algo
    info['public_key'] = key
    return info


def private_key(r):
    keys = lib.mod('keys')
    core = lib.core()
    k = r.choice(['rsa', 'rsassa_pss', 'dsa', 'dsa', 'ec', 'ec', 'ec', 'ed25519', 'x448'])
    algo = keys.PrivateKeyAlgorithm()
    algo['algorithm'] = k
    info = keys.PrivateKeyInfo()
    info['version'] = r.choice([0, 1])
    if k in ('rsa', 'rsassa_pss'):
        algo['parameters'] = core.Null() if k == 'rsa' else lib.mod('algos').RSASSAPSSParams.load(b'\x30\x00')
        d = dict((f, 3 + i) for i, f in enumerate(['modulus', 'public_exponent', 'private_exponent', 'prime1', 'prime2', 'exponent1',
                                                   'exponent2', 'coefficient']))
        d['version'] = 'two-prime'
        if r.random() < .3:
            d['version'] = 'multi'
            d['other_prime_infos'] = [{'prime': 5, 'exponent': 6, 'coefficient': 7}]
        key = keys.RSAPrivateKey(d)
    elif k == 'dsa':
        if r.random() < .6:
            algo['parameters'] = dsa_params(r)
        key = core.Integer(r.choice([1, 4321]))
    elif k == 'ec':
        algo['parameters'] = ec_params(r, True)
        d = {'version': 'ecPrivkeyVer1', 'private_key': 99}
        if r.random() < .5:
            d['public_key'] = b'\x04' + b'\x01' * 20
        if r.random() < .4:
            d['parameters'] = ec_params(r, True)
        key = keys.ECPrivateKey(d)
    else:
        key = core.OctetString(b'k' * 32)
    info['private_key_algorithm'] = algo
    info['private_key'] = key
    if r.random() < .3:
        info['attributes'] = [{'type': '1.2.3', 'values': [core.Integer(5)]}]
    return info


def request_csr(r):
    csr = lib.mod('csr')
    x509 = lib.mod('x509')
    core = lib.core()
    attrs = []
    for k in r.sample(['challenge', 'name', 'ext', 'ext2', 'unknown', 'os'], r.randint(0, 4)):
        if k == 'challenge':
            attrs.append({'type': 'challenge_password', 'values': [x509.DirectoryString(name='utf8_string', value=core.UTF8String('pw'))]})
        elif k == 'name':
            attrs.append({'type': 'microsoft_request_client_info', 'values': [
                {'clientid': 5, 'machinename': 'm', 'username': x, 'processname': 'p'} for x in ('a', 'b')]})
        elif k in ('ext', 'ext2'):
            attrs.append({'type': 'extension_request', 'values': [[cert_extension(r, n) for n in r.sample(CERT, r.randint(1, 3))]]})
        elif k == 'os':
            attrs.append({'type': 'microsoft_os_version', 'values': [x509.DirectoryString(name='printable_string', value=core.PrintableString('6.1'))]})
        else:
            attrs.append({'type': '1.2.3.4', 'values': core.SetOf.load(b'\x31\x05\x02\x01\x01\x05\x00')})
    info = {'version': 'v1', 'subject': names(r), 'subject_pk_info': public_key(r)}
    if attrs or r.random() < .5:
        info['attributes'] = attrs
    return csr.CertificationRequest({'certification_request_info': info,
                                     'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature': b's'})


def all_():
    for i, name in enumerate(SCHEMES):
        yield 'algos.EncryptionAlgorithm', scheme(random.Random('scheme%d' % i), name).dump()
    for v in (None, 160, 120, 58, 256, 99):
        d = {'iv': b'1'} if v is None else {'iv': b'1', 'rc2_parameter_version': v}
        yield 'algos.EncryptionAlgorithm', lib.mod('algos').EncryptionAlgorithm({'algorithm': 'rc2', 'parameters': d}).dump()
    for i in range(8):
        yield 'algos.KdfAlgorithm', kdf(random.Random('kdf%d' % i)).dump()
    for i in range(40):
        yield 'keys.PublicKeyInfo', public_key(random.Random('public%d' % i)).dump()
    for i in range(36):
        yield 'keys.PrivateKeyInfo', private_key(random.Random('private%d' % i)).dump()
    for i in range(12):
        yield 'csr.CertificationRequest', request_csr(random.Random('csr%d' % i)).dump()
    for r_, s_ in ((1, 1), (127, 128), (1 << 255, 1 << 100), (0, 5)):
        yield 'algos.DSASignature', lib.mod('algos').DSASignature({'r': r_, 's': s_}).dump()
    for i in range(40):
        yield 'x509.Certificate', certificate(random.Random('cert%d' % i)).dump()
    for i in range(12):
        yield 'crl.CertificateList', crl(random.Random('crl%d' % i)).dump()
    for i in range(10):
        yield 'ocsp.OCSPRequest', request(random.Random('req%d' % i)).dump()
    for i in range(10):
        yield 'ocsp.OCSPResponse', response(random.Random('resp%d' % i)).dump()
    for i in range(16):
        yield 'x509.Name', names(random.Random('name%d' % i)).dump()
    for i in range(8):
        yield 'x509.GeneralNames', general_names(random.Random('gn%d' % i), 5).dump()
    for raw in (b'Caf\xe9', b'\xa4\xe1\xff', b'plain'):
        yield 'x509.DirectoryString', b'\x14' + bytes([len(raw)]) + raw
        yield 'x509.NotReallyTeletexString', b'\x14' + bytes([len(raw)]) + raw
        yield 'x509.DirectoryString', b'\x34\x80\x14\x01' + raw[:1] + b'\x14' + bytes([len(raw) - 1]) + raw[1:] + b'\x00\x00'
    for i in range(6):
        r = random.Random('trusted%d' % i)
        yield 'x509.TrustedCertificate', certificate(r).dump() + aux(r)
    for i in range(8):
        yield 'crl.CertificateList', crl_urls(random.Random('urls%d' % i)).dump()
    for i in range(40, 46):
        for e in crl(random.Random('crl%d' % i))['tbs_cert_list']['revoked_certificates']:
            if e['crl_entry_extensions'].native:
                yield 'crl.RevokedCertificate', e.dump()
        for e in response(random.Random('resp%d' % i)).response_data['responses']:
            if e['single_extensions'].native:
                yield 'ocsp.SingleResponse', e.dump()
        for e in request(random.Random('req%d' % i))['tbs_request']['request_list']:
            if e['single_request_extensions'].native:
                yield 'ocsp.Request', e.dump()
        for e in points(random.Random('points%d' % i)):
            yield 'x509.DistributionPoint', e.dump()
