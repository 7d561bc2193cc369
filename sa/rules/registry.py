"""Which rules decide which property."""
RULES = {
    'C01': ['chain.c01'],
    'C02': ['chain.c02'],
    'C03': ['chain.c03'],
    'C04': ['chain.c04'],
    'C05': ['chain.c05'],
    'C06': ['constraints.c06'],
    'C07': ['constraints.c07'],
    'C08': ['chain.c08', 'messages.c08m'],
    'C09': ['policy.c09'],
    'C10': ['policy.c10'],
    'C11': ['policy.c11'],
    'C12': ['policy.c12'],
    'C13': ['collector.c13'],
    'C14': ['collector.c14'],
    'C15': ['collector.c15'],
    'C16': ['collector.c16'],
    'C17': ['marks.c17'],
    'C18': ['marks.c18'],
    'C19': ['marks.c19'],
    'C20': ['marks.c20'],
    'C22': ['registration.c22'],
    'C23': ['registration.c23'],
    'C24': ['metadata.c24'],
    'C25': ['priority.c25'],
    'C26': ['metadata.c26'],
    'C21': ['registration.c21'],
    'C27': ['endpoints.c27'],
    'C28': ['endpoints.c28'],
    'C29': ['endpoints.c29'],
    'C30': ['statements.c30'],
    'C31': ['ownership.c31'],
    'C32': ['endpoints.c32'],
    'C33': ['messages.c33'],
    'C34': ['client.c34'],
    'C36': ['anchors.c36'],
    'C37': ['dump.c37'],
    'C38': ['refusal.c38'],
    'C39': ['automatic.c39'],
    'C40': ['oauthreg.c40'],
    'C41': ['superiors.c41'],
    'C42': ['trawl.c42'],
    'C43': ['ask.c43'],
    'C44': ['tokens.c44'],
    'C35': ['paths.c35'],
}
